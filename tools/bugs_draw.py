F = "sdk/src/rnd.rs"
H = r'''
use ephemeral_vrf_sdk::rnd;
// well mixed 32 byte inputs
struct G(u64);
impl G {
    fn next(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_exact_mut(8) {
            self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
        }
        b
    }
}
'''
BUGS = [
dict(id="c25-one-byte-tried", property="C25", template="demo_draw",
 needs="a range whose width does not divide 256, such as 100, and enough draws to tell the frequencies apart",
 breaks="only one byte is tried before the biased fallback: the lower values of the range come up up to twice as often",
 edits=[(F, "    for &b in bytes.iter().rev() {\n", "    for &b in bytes.iter().rev().take(1) {\n")],
 files={"main.rs": H + r'''
fn main() {
    let mut g = G(1);
    let (mut low, n) = (0u32, 200_000u32);
    for _ in 0..n {
        if rnd::random_u8_with_range(&g.next(), 1, 100) <= 50 {
            low += 1;
        }
    }
    // a half, within twenty standard deviations
    assert!((low as f64 / n as f64 - 0.5).abs() < 0.022, "values up to 50 of 1..=100 came up in {low} of {n} draws");
}
'''}),
dict(id="c25-byte-twice", property="C25", template="demo_draw",
 needs="looking at the joint distribution of the bytes of the 64 bit draws",
 breaks="one byte of the randomness is used twice in the 64 bit draws: 2^56 values can come up instead of 2^64",
 edits=[(F, "bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[28],", "bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[24],")],
 files={"main.rs": H + r'''
fn main() {
    let mut g = G(2);
    let n = 20_000;
    let mut same = [[0u32; 8]; 8];
    for _ in 0..n {
        let b = rnd::random_u64(&g.next()).to_le_bytes();
        for i in 0..8 {
            for j in 0..i {
                same[i][j] += (b[i] == b[j]) as u32;
            }
        }
    }
    // n / 256 = 78 expected
    let worst = same.iter().flatten().max().unwrap();
    assert!(*worst < 250, "two bytes of the draw are equal in {worst} of {n} draws");
}
'''}),
dict(id="c25-coin-of-three", property="C25", template="demo_draw",
 needs="counting how often the coin comes up heads",
 breaks="the coin is heads for a third of the inputs, not for half of them",
 edits=[(F, "    (bytes[31] % 2) == 0\n", "    (bytes[31] % 3) == 0\n")],
 files={"main.rs": H + r'''
fn main() {
    let mut g = G(3);
    let n = 100_000;
    let heads = (0..n).filter(|_| rnd::random_bool(&g.next())).count();
    assert!((heads as f64 / n as f64 - 0.5).abs() < 0.05, "{heads} heads in {n}");
}
'''}),
]
