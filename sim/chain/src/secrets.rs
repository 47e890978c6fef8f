//! Secrets, and how to recognise them in what a program lets out.
use crate::keys::*;
use serde_json::Value;

struct Pat {
    what: &'static str,
    form: &'static str,
    bytes: Vec<u8>,
}

fn chunks(v: &mut Vec<Pat>, what: &'static str, form: &'static str, text: &[u8], n: usize) {
    for c in text.chunks_exact(n) {
        v.push(Pat { what, form, bytes: c.to_vec() });
    }
}

fn key_forms(v: &mut Vec<Pat>, what: &'static str, k: &[u8]) {
    use base64::Engine;
    // every piece of 31 characters or 31 bytes contains one of these chunks
    chunks(v, what, "raw bytes", k, 16);
    let hex: String = k.iter().map(|b| format!("{b:02x}")).collect();
    let rev: String = k.iter().rev().map(|b| format!("{b:02x}")).collect();
    for h in [hex, rev] {
        chunks(v, what, "hexadecimal", h.as_bytes(), 16);
        chunks(v, what, "hexadecimal", h.to_uppercase().as_bytes(), 16);
    }
    chunks(v, what, "base58", bs58::encode(k).into_string().as_bytes(), 16);
    chunks(v, what, "base64", base64::engine::general_purpose::STANDARD_NO_PAD.encode(k).as_bytes(), 16);
    chunks(v, what, "base64", base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(k).as_bytes(), 16);
    for c in k.chunks_exact(8) {
        let d: Vec<String> = c.iter().map(|b| b.to_string()).collect();
        v.push(Pat { what, form: "numbers", bytes: d.join(",").into_bytes() });
        let h: Vec<String> = c.iter().map(|b| format!("0x{b:02x}")).collect();
        v.push(Pat { what, form: "numbers", bytes: h.join(",").into_bytes() });
    }
}

pub struct Secrets(Vec<Pat>);

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    let p = unsafe { libc::memmem(hay.as_ptr() as _, hay.len(), needle.as_ptr() as _, needle.len()) };
    (!p.is_null()).then(|| p as usize - hay.as_ptr() as usize)
}

impl Secrets {
    /// of an identity: its secret key, and the VRF secret key that belongs to it
    pub fn of(w: Who) -> Self {
        let a = &cast()[w as usize];
        let mut v = vec![];
        key_forms(&mut v, "the identity's secret key", &a.kp.to_bytes()[..32]);
        chunks(&mut v, "the identity's key pair", "base58", a.kp.to_base58_string().as_bytes(), 16);
        for c in a.kp.to_base58_string().as_bytes().chunks_exact(8) {
            let d: Vec<String> = c.iter().map(|b| b.to_string()).collect();
            v.push(Pat { what: "the identity's key pair", form: "numbers", bytes: d.join(",").into_bytes() });
        }
        key_forms(&mut v, "the VRF secret key", &a.sk.to_bytes());
        Secrets(v)
    }
    pub fn and(mut self, what: &'static str, text: &str) -> Self {
        chunks(&mut self.0, what, "text", text.as_bytes(), 16);
        self
    }

    /// What secret there is in the bytes, and what stands before it.
    pub fn scan(&self, b: &[u8]) -> Option<String> {
        let bare: Vec<u8> = b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect();
        self.0.iter().find_map(|p| {
            // lists are laid out over lines, or not
            let hay = if p.form == "numbers" { &bare[..] } else { b };
            find(hay, &p.bytes).map(|at| {
                let from = hay[..at].iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0).max(at.saturating_sub(60));
                format!("{} ({}) after {:?}", p.what, p.form, String::from_utf8_lossy(&hay[from..at]))
            })
        })
    }

    /// The same, within a JSON value whose strings may carry encoded bytes.
    pub fn scan_json(&self, v: &Value) -> Option<String> {
        fn strings(x: &Secrets, v: &Value) -> Option<String> {
            use base64::Engine;
            match v {
                Value::String(s) => {
                    if s.len() > 2000 {
                        return None;
                    }
                    let b = base64::engine::general_purpose::STANDARD.decode(s).ok().and_then(|b| x.scan(&b));
                    b.or_else(|| bs58::decode(s).into_vec().ok().and_then(|b| x.scan(&b)))
                }
                Value::Array(a) => a.iter().find_map(|v| strings(x, v)),
                Value::Object(o) => o.values().find_map(|v| strings(x, v)),
                _ => None,
            }
        }
        self.scan(v.to_string().as_bytes()).or_else(|| strings(self, v))
    }
}

/// Identities an operator may set by mistake.
pub fn malformed(w: Who, n: u64) -> String {
    let a = &cast()[w as usize % N];
    let s = a.kp.to_base58_string();
    match n % 6 {
        0 => s[..s.len() - 1].into(),
        1 => format!("{s}\n"),
        2 => format!("\"{s}\""),
        3 => format!("{:?}", a.kp.to_bytes()),
        4 => bs58::encode(&a.kp.to_bytes()[..32]).into_string(),
        _ => format!("{}0{}", &s[..40], &s[41..]),
    }
}

