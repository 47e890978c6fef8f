H = "mod mini;\nuse mini::*;\n"
Q = "api/src/state/queue.rs"
BUGS = [
dict(id="c27-find-collects", property="C27",
 needs="a queue with more than about two hundred pending requests: the program's heap is 32 KiB and is never handed back",
 breaks="answers (and everything else that looks a request up) run out of heap on chain, so that a long queue is stuck",
 edits=[(Q, """    pub fn find_item_by_id(&self, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
        let mut current = 0usize;
""", """    pub fn find_item_by_id(&self, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
        let current = self.iter_items().take_while(|item| &item.id != id).count();
"""),
        (Q, """                if &item.id == id {
                    return Some((current, item));
                }
                current += 1;
            }
""", """                if &item.id == id {
                    return Some((current, item));
                }
            }
""")],
 files={"main.rs": H + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        USED.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 60_000);
    for i in 0..140u8 {
        for c in 0..4 {
            let ix = w.request_ix(o.queue, prog(c), false, i, &[1], &[], &[]);
            w.ok(ix);
        }
    }
    let items = w.items(o.queue);
    assert_eq!(items.len(), 560);
    let data = w.accts[&o.queue].data[8..].to_vec();
    let mut aligned = vec![0u64; data.len() / 8 + 1];
    let bytes = unsafe { std::slice::from_raw_parts_mut(aligned.as_mut_ptr() as *mut u8, data.len()) };
    bytes.copy_from_slice(&data);
    let queue = api::QueueAccount::load(bytes).ok().unwrap();
    let before = USED.load(SeqCst);
    assert!(queue.find_item_by_id(&items[559].id).is_some());
    let heap = USED.load(SeqCst) - before;
    assert!(heap < 32 * 1024, "looking a request up takes {heap} bytes of the program's 32 KiB heap");
}
'''}),
dict(id="c27-recount", property="C27",
 needs="a queue with some hundreds of pending requests: the cost of a request grows with the square of their number",
 breaks="requests exceed the compute budget long before the queue is full",
 edits=[(Q, "        let logical_index = self.header.item_count as usize;\n", """        let mut logical_index = 0;
        while self.get_item_by_index(logical_index + 1).is_some() {
            logical_index += 1;
        }
""")],
 files={"main.rs": H + r'''
fn cost(n: usize) -> f64 {
    let mut aligned = vec![0u64; n * 12 + 1000];
    let len = aligned.len() * 8;
    let bytes = unsafe { std::slice::from_raw_parts_mut(aligned.as_mut_ptr() as *mut u8, len) };
    let mut queue = api::QueueAccount::load(bytes).ok().unwrap();
    let item = api::QueueItem {
        slot: 1, id: [1; 32], callback_program_id: [2; 32], callback_discriminator_offset: 0, metas_offset: 0, args_offset: 0,
        callback_discriminator_len: 0, metas_len: 0, args_len: 0, priority_request: 0, used: 0, _padding: [0; 4],
    };
    for _ in 0..n {
        queue.add_item(&item, &[], &[], &[]).ok().unwrap();
    }
    let mut best = f64::MAX;
    for _ in 0..20 {
        let t = std::time::Instant::now();
        queue.add_item(&item, &[], &[], &[]).ok().unwrap();
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
fn main() {
    let (a, b) = (cost(60), cost(600));
    assert!(b / a < 40.0, "with 10 times the requests, one more takes {:.0} times as long", b / a);
}
'''}),
]
