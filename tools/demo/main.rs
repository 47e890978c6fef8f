mod mini;
use mini::*;
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    for i in 0..3 {
        let ix = w.request_ix(o.queue, prog(0), i % 2 == 0, i, &[1, 2, 3], &[(prog(5), true)], &[9; 20]);
        w.ok(ix);
    }
    w.slot(s + 1);
    for it in w.items(o.queue) {
        let ix = w.provide_ix(&o, o.queue, &it);
        w.ok(ix);
    }
    let c = w.calls();
    assert_eq!(c.len(), 3);
    assert_eq!(w.items(o.queue).len(), 0);
}
