//! C25: what consumers draw from the randomness they are given is uniform.
use super::*;

/// 32 uniform bytes at a time
struct Bytes(u64);
impl Bytes {
    fn word(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn next(&mut self) -> [u8; 32] {
        let mut b = [0; 32];
        for c in b.chunks_exact_mut(8) {
            c.copy_from_slice(&self.word().to_le_bytes());
        }
        b
    }
}

/// How many standard deviations a chi-square statistic is above what chance gives
/// (Wilson and Hilferty's approximation).
fn surprise(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let k = (counts.len() - 1) as f64;
    ((x / k).cbrt() - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
}

/// beyond chance: less than once in 10^15 samples
const BEYOND: f64 = 8.0;

pub fn draw_rules(seed: u64, lo: u8, hi: u8, n: u32) -> Vec<String> {
    let quiet = chain::native::QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(|| sample(seed, lo, hi, n));
    chain::native::QUIET.with(|q| q.set(quiet));
    r.unwrap_or_else(|_| vec!["a randomness helper panicked".into()])
}

fn sample(seed: u64, lo: u8, hi: u8, n: u32) -> Vec<String> {
    let mut bad = vec![];
    let mut g = Bytes(seed);
    let width = (hi - lo) as usize + 1;
    let mut ranged = vec![0u64; width];
    let mut byte = vec![0u64; 256];
    let mut coin = [0u64; 2];
    let mut stray = 0u64;
    for _ in 0..n {
        let b = g.next();
        match ranged.get_mut(sdk::rnd::random_u8_with_range(&b, lo, hi).wrapping_sub(lo) as usize) {
            Some(c) => *c += 1,
            None => stray += 1,
        }
        byte[sdk::rnd::random_u8(&b) as usize] += 1;
        coin[sdk::rnd::random_bool(&b) as usize] += 1;
    }
    if stray > 0 {
        bad.push(format!("random_u8_with_range({lo}, {hi}) left the range {stray} times in {n} draws"));
    }
    let mut judge = |what: String, counts: &[u64]| {
        if counts.len() > 1 && n as usize >= 20 * counts.len() {
            let z = surprise(counts);
            if z > BEYOND {
                let (a, b) = (counts.iter().min().unwrap(), counts.iter().max().unwrap());
                bad.push(format!("{what} is not uniform: in {n} draws the values came up between {a} and {b} times ({z:.1} standard deviations)"));
            }
        }
    };
    judge(format!("random_u8_with_range({lo}, {hi})"), &ranged);
    judge("random_u8".into(), &byte);
    judge("random_bool".into(), &coin);

    // every bit of the integers is unbiased and says nothing about the others
    let m = n.min(3000) as usize;
    let mut words: Vec<(&str, u32, Vec<u64>)> = vec![
        ("random_u32", 32, vec![]),
        ("random_i32", 32, vec![]),
        ("random_u64", 64, vec![]),
        ("random_i64", 64, vec![]),
    ];
    for _ in 0..m {
        let b = g.next();
        words[0].2.push(sdk::rnd::random_u32(&b) as u64);
        words[1].2.push(sdk::rnd::random_i32(&b) as u32 as u64);
        words[2].2.push(sdk::rnd::random_u64(&b));
        words[3].2.push(sdk::rnd::random_i64(&b) as u64);
    }
    let off = |ones: usize| (ones as f64 - m as f64 / 2.0).abs() / (m as f64 / 4.0).sqrt();
    for (what, bits, v) in &words {
        // column by column, 64 draws in a word
        let cols: Vec<Vec<u64>> = (0..*bits)
            .map(|i| v.chunks(64).map(|c| c.iter().enumerate().fold(0, |a, (j, x)| a | (x >> i & 1) << j)).collect())
            .collect();
        let odd = (0..cols.len()).find_map(|i| {
            let z = off(cols[i].iter().map(|w| w.count_ones() as usize).sum());
            if z > BEYOND {
                return Some(format!("bit {i} of {what} is biased ({z:.1} standard deviations in {m} draws)"));
            }
            (0..i).find_map(|j| {
                let z = off(cols[i].iter().zip(&cols[j]).map(|(a, b)| (a ^ b).count_ones() as usize).sum());
                (z > BEYOND).then(|| format!("bits {j} and {i} of {what} depend on each other ({z:.1} standard deviations in {m} draws)"))
            })
        });
        bad.extend(odd);
    }
    bad
}

impl World {
    /// what the consumers of a run were given
    pub(super) fn delivered_rules(&mut self, n: usize) {
        let mut bad = vec![];
        let mut done = 0;
        for er in [false, true] {
            let v: Vec<[u8; 32]> = self.layer(er).model.delivered.values().copied().collect();
            if v.len() < 14 {
                continue;
            }
            done += 1;
            let mut seen = HashSet::new();
            if v.iter().any(|x| !seen.insert(*x)) {
                bad.push("two requests were given the same randomness".to_string());
                continue;
            }
            for i in 0..32 {
                if v.iter().all(|x| x[i] == v[0][i]) {
                    bad.push(format!("byte {i} of the randomness was {} for each of {} requests", v[0][i], v.len()));
                }
                for j in 0..i {
                    if v.iter().all(|x| x[i] == x[j]) {
                        bad.push(format!("bytes {j} and {i} of the randomness were equal for each of {} requests", v.len()));
                    }
                }
            }
        }
        *self.stats.rules.entry("C25").or_default() += done;
        bad.truncate(1);
        for m in bad {
            self.report(n, "C25", m);
        }
    }
}
