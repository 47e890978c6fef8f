//! Runs Solana programs natively inside the real runtime (`InvokeContext`), with the same
//! serialisation and write-back checks as the BPF loader, and records every call.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{Instruction, InstructionError};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program_runtime::invoke_context::InvokeContext;
use solana_program_runtime::serialization::{deserialize_parameters, serialize_parameters};
use std::cell::RefCell;
use std::panic::AssertUnwindSafe;
use std::sync::Once;

pub type ProcessInstruction = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

/// One program invocation (top level or CPI).
#[derive(Clone, Debug)]
pub struct Call {
    pub program: Pubkey,
    /// index (in the trace) of the calling invocation
    pub parent: Option<usize>,
    pub data: Vec<u8>,
    pub metas: Vec<Meta>,
    /// account contents when the call started / returned (not for builtin system calls)
    pub pre: Vec<Acc>,
    pub post: Vec<Acc>,
    pub ok: bool,
    pub native: bool,
}

#[derive(Default)]
pub struct Trace {
    pub calls: Vec<Call>,
    pub stack: Vec<usize>,
    pub syscalls: u64,
    /// halt the VM at this syscall (compute exhaustion fault)
    pub halt_at: Option<u64>,
    pub halted: bool,
    pub abort: Option<InstructionError>,
    pub logs: Vec<String>,
    pub cur_slot: u64,
    /// the most that a call of the program under test used of its heap, and its instructions
    pub heap: usize,
    pub steps: u64,
    /// fail calls of the program under test that need more than the runtime has
    pub bounded: bool,
}

thread_local! {
    static IC: RefCell<Option<usize>> = const { RefCell::new(None) };
    pub static TRACE: RefCell<Trace> = RefCell::new(Trace::default());
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn set_ic(ic: &mut InvokeContext) {
    IC.with(|c| c.replace(Some(ic as *mut InvokeContext as usize)));
}
fn ic<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = IC.with(|c| c.borrow().expect("no invoke context"));
    unsafe { std::mem::transmute::<usize, &mut InvokeContext>(p) }
}

fn accs(infos: &[AccountInfo]) -> Vec<Acc> {
    infos
        .iter()
        .map(|a| Acc {
            lamports: a.lamports(),
            owner: *a.owner,
            data: a.try_borrow_data().map(|d| d.to_vec()).unwrap_or_default(),
        })
        .collect()
}

fn syscall_tick() {
    let halt = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.syscalls;
        t.syscalls += 1;
        if t.halt_at == Some(n) {
            t.halted = true;
            true
        } else {
            false
        }
    });
    if halt {
        std::panic::resume_unwind(Box::new("vm halt"));
    }
}

struct End((bool, usize, bool), bool);
impl Drop for End {
    fn drop(&mut self) {
        let r = crate::meter::end(self.0);
        if self.1 {
            TRACE.with(|t| {
                let mut t = t.borrow_mut();
                t.heap = t.heap.max(r.heap);
                t.steps = t.steps.max(r.steps);
            });
        }
    }
}

pub fn invoke_native(
    f: ProcessInstruction,
    invoke_context: &mut InvokeContext,
) -> Result<u64, Box<dyn std::error::Error>> {
    set_ic(invoke_context);
    let tc = &invoke_context.transaction_context;
    let ix = tc.get_current_instruction_context()?;
    invoke_context.consume_checked(1)?;
    let (mut buf, _regions, lens) = serialize_parameters(&ix, false, false, true)?;
    let ptr = &mut buf.as_slice_mut()[0] as *mut u8;
    let (program_id, infos, input) = unsafe { solana_program_entrypoint::deserialize(ptr) };
    let program_id = *program_id;

    let my = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        let parent = t.stack.last().copied();
        t.calls.push(Call {
            program: program_id,
            parent,
            data: input.to_vec(),
            metas: infos
                .iter()
                .map(|a| Meta {
                    key: *a.key,
                    signer: a.is_signer,
                    writable: a.is_writable,
                })
                .collect(),
            pre: accs(&infos),
            post: vec![],
            ok: false,
            native: true,
        });
        let i = t.calls.len() - 1;
        t.stack.push(i);
        i
    });
    let depth = TRACE.with(|t| t.borrow().stack.len());

    let was_quiet = QUIET.with(|q| q.replace(true));
    let metered = program_id == crate::programs::VRF && !crate::svm::OLD.with(|o| o.get());
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
        let _end = End(crate::meter::begin(metered), metered);
        f(&program_id, &infos, input)
    }));
    QUIET.with(|q| q.set(was_quiet));

    let abort = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.stack.truncate(depth - 1);
        t.abort.take()
    });
    let over = TRACE.with(|t| {
        let t = t.borrow();
        t.bounded && (t.heap > crate::meter::HEAP || t.steps > crate::meter::STEPS)
    });
    let fail = |e: InstructionError| -> Result<u64, Box<dyn std::error::Error>> { Err(Box::new(e)) };
    match res {
        Err(_) => return fail(InstructionError::ProgramFailedToComplete),
        Ok(_) if over => return fail(InstructionError::ProgramFailedToComplete),
        Ok(r) => {
            if let Some(e) = abort {
                return fail(e);
            }
            if let Err(e) = r {
                return fail(InstructionError::from(u64::from(e)));
            }
        }
    }
    let post = accs(&infos);
    drop(infos);
    let tc = &invoke_context.transaction_context;
    let ix = tc.get_current_instruction_context()?;
    deserialize_parameters(&ix, false, false, buf.as_slice(), &lens)?;
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        let c = &mut t.calls[my];
        c.ok = true;
        c.post = post;
    });
    Ok(0)
}

#[macro_export]
macro_rules! native_vm {
    ($name:ident, $f:expr) => {
        pub fn $name<'a>(
            vm: *mut solana_program_runtime::solana_sbpf::vm::EbpfVm<
                'a,
                solana_program_runtime::invoke_context::InvokeContext<'static>,
            >,
            _a: u64,
            _b: u64,
            _c: u64,
            _d: u64,
            _e: u64,
        ) {
            let vm = unsafe {
                &mut *((vm as *mut u64).offset(
                    -(solana_program_runtime::solana_sbpf::vm::get_runtime_environment_key()
                        as isize),
                )
                    as *mut solana_program_runtime::solana_sbpf::vm::EbpfVm<
                        solana_program_runtime::invoke_context::InvokeContext,
                    >)
            };
            vm.program_result = $crate::native::invoke_native($f, vm.context_object_pointer)
                .map_err(|e| {
                    solana_program_runtime::solana_sbpf::error::EbpfError::SyscallError(e)
                })
                .into();
        }
    };
}

fn cpi(
    instruction: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let invoke_context = ic();
    let tc = &invoke_context.transaction_context;
    let ix = tc.get_current_instruction_context()?;
    let caller = *ix.get_program_key()?;
    let signers = seeds
        .iter()
        .map(|s| {
            Pubkey::create_program_address(s, &caller)
                .map_err(|_| InstructionError::MaxSeedLengthExceeded)
        })
        .collect::<Result<Vec<_>, _>>()?;
    if instruction.data.len() > 10 * 1024 || instruction.accounts.len() > 255 {
        return Err(InstructionError::InvalidArgument);
    }
    invoke_context.prepare_next_instruction(instruction, &signers)?;

    let tc = &invoke_context.transaction_context;
    let ix = tc.get_current_instruction_context()?;
    let next = tc.get_next_instruction_context()?;
    let mut back = vec![];
    let mut metas = vec![];
    for ia in next.instruction_accounts().iter() {
        let key = *tc.get_key_of_account_at_index(ia.index_in_transaction)?;
        metas.push(Meta {
            key,
            signer: ia.is_signer(),
            writable: ia.is_writable(),
        });
        let in_caller = ix.get_index_of_account_in_instruction(ia.index_in_transaction)?;
        let mut acc = ix.try_borrow_instruction_account(in_caller)?;
        #[allow(deprecated)]
        if acc.is_executable() {
            continue;
        }
        let pos = infos
            .iter()
            .position(|a| a.unsigned_key() == &key)
            .ok_or(InstructionError::MissingAccount)?;
        let info = &infos[pos];
        if acc.get_lamports() != info.lamports() {
            acc.set_lamports(info.lamports())?;
        }
        let data = info
            .try_borrow_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        match acc.can_data_be_resized(data.len()) {
            Ok(()) if acc.get_data() == *data => {}
            Ok(()) => acc.set_data_from_slice(&data)?,
            Err(e) if acc.get_data() != *data => return Err(e),
            _ => {}
        }
        if acc.get_owner() != info.owner {
            acc.set_owner(info.owner.as_ref())?;
        }
        if ia.is_writable() {
            back.push((ia.index_in_transaction, pos));
        }
    }
    drop(next);
    drop(ix);

    // non-native callees (system program) are recorded here, native ones record themselves
    let native = crate::svm::is_native(&instruction.program_id);
    let slot = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if native {
            return None;
        }
        let parent = t.stack.last().copied();
        t.calls.push(Call {
            program: instruction.program_id,
            parent,
            data: instruction.data.clone(),
            metas,
            pre: vec![],
            post: vec![],
            ok: false,
            native: false,
        });
        Some(t.calls.len() - 1)
    });

    let mut cu = 0;
    let r = invoke_context.process_instruction(&mut cu, &mut Default::default());
    set_ic(invoke_context);
    r?;
    if let Some(s) = slot {
        TRACE.with(|t| t.borrow_mut().calls[s].ok = true);
    }

    let tc = &invoke_context.transaction_context;
    let ix = tc.get_current_instruction_context()?;
    for (index_in_tx, pos) in back {
        let in_caller = ix.get_index_of_account_in_instruction(index_in_tx)?;
        let acc = ix.try_borrow_instruction_account(in_caller)?;
        let info = &infos[pos];
        **info
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = acc.get_lamports();
        if info.owner != acc.get_owner() {
            info.assign(acc.get_owner());
        }
        let new = acc.get_data();
        if info.data_len() != new.len() {
            info.resize(new.len())
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        let mut d = info
            .try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        if **d != *new {
            d.copy_from_slice(new);
        }
    }
    Ok(())
}

pub fn call(
    instruction: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    let _pause = crate::meter::pause();
    syscall_tick();
    match cpi(instruction, infos, seeds) {
        Ok(()) => Ok(()),
        Err(e) => {
            TRACE.with(|t| {
                let mut t = t.borrow_mut();
                if t.abort.is_none() {
                    t.abort = Some(e.clone());
                }
            });
            // on chain control never returns to the caller; the abort flag makes it fail
            Err(ProgramError::try_from(e).unwrap_or(ProgramError::Custom(0xdead)))
        }
    }
}

struct Stubs;
impl Stubs {
    fn sysvar<T: Clone>(&self, v: Result<std::sync::Arc<T>, InstructionError>, addr: *mut u8) -> u64 {
        let _pause = crate::meter::pause();
        syscall_tick();
        match v {
            Ok(x) => unsafe {
                *(addr as *mut T) = T::clone(&x);
                0
            },
            Err(_) => 0x1_0000_0000,
        }
    }
}
fn in_vm() -> bool {
    IC.with(|c| c.borrow().is_some()) && TRACE.with(|t| !t.borrow().stack.is_empty())
}
impl solana_sysvar::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let _pause = crate::meter::pause();
        if !in_vm() {
            return;
        }
        TRACE.with(|t| {
            let mut t = t.borrow_mut();
            if t.logs.len() < 200 {
                t.logs.push(message.to_string())
            }
        });
        syscall_tick();
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {
        let _pause = crate::meter::pause();
        syscall_tick();
    }
    fn sol_remaining_compute_units(&self) -> u64 {
        200_000
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        call(instruction, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        self.sysvar(ic().get_sysvar_cache().get_clock(), a)
    }
    fn sol_get_epoch_schedule_sysvar(&self, a: *mut u8) -> u64 {
        self.sysvar(ic().get_sysvar_cache().get_epoch_schedule(), a)
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        self.sysvar(ic().get_sysvar_cache().get_rent(), a)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let _pause = crate::meter::pause();
        let (p, d) = ic().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_get_stack_height(&self) -> u64 {
        ic().get_stack_height() as u64
    }
}

static INIT: Once = Once::new();
pub fn install() {
    INIT.call_once(|| {
        solana_sysvar::program_stubs::set_syscall_stubs(Box::new(Stubs));
        crate::old::install();
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) {
                prev(i)
            }
        }));
    });
}
