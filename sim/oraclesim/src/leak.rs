//! C24: what must never leave the service.
use chain::keys::*;
use chain::secrets::Secrets;
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::sync::OnceLock;

pub const API_KEY: &str = "ls-7c1f09a2-5be4-4d83-a6c0-93e2d4f8b17a";

pub fn secrets() -> &'static Secrets {
    static S: OnceLock<Secrets> = OnceLock::new();
    S.get_or_init(|| Secrets::of(O0).and("the Laserstream API key", API_KEY))
}

struct Stderr;
impl log::Log for Stderr {
    // not what the simulated chain logs
    fn enabled(&self, m: &log::Metadata) -> bool {
        !["solana_runtime", "solana_svm", "solana_program_runtime", "solana_system_program"].iter().any(|t| m.target().starts_with(t))
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        eprintln!("[{} {}] {}", r.level(), r.target(), r.args());
    }
    fn flush(&self) {}
}

static CAPTURING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn capturing() -> bool {
    CAPTURING.load(std::sync::atomic::Ordering::Relaxed)
}

/// Everything this process prints and logs from here on goes into the file.
pub fn capture() -> std::fs::File {
    let f = unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), 0);
        assert!(fd >= 0);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
        std::fs::File::from_raw_fd(fd)
    };
    CAPTURING.store(true, std::sync::atomic::Ordering::Relaxed);
    let _ = log::set_boxed_logger(Box::new(Stderr));
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    f
}

pub fn captured(mut f: std::fs::File) -> Vec<u8> {
    let _ = std::io::stdout().flush();
    let mut b = vec![];
    let _ = f.rewind();
    let _ = f.read_to_end(&mut b);
    b
}

pub const ODD_ARGS: [&[&str]; 6] = [&["--help"], &["-h"], &["--version"], &["--http-port", "x"], &["--no-such-option"], &["--skip-preflight=perhaps"]];

/// The service run with arguments that make it explain itself: a process of its own.
pub fn explain(n: u64) -> (String, Vec<u8>) {
    let args = ODD_ARGS[n as usize % ODD_ARGS.len()];
    let a = &cast()[O0 as usize];
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("SIM_EXPLAIN", "1")
        .env_remove("SIM_WORKER")
        .env("VRF_ORACLE_IDENTITY", a.kp.to_base58_string())
        .env("LASERSTREAM_API_KEY", API_KEY)
        .stdin(std::process::Stdio::null())
        .output();
    let mut b = vec![];
    if let Ok(o) = o {
        b.extend(o.stdout);
        b.extend(o.stderr);
    }
    (args.join(" "), b)
}
