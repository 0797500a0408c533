// A fixed stream of calls, and a fingerprint of what each block of it did.
// Compiled twice: with the real functions (engine/src/bin/stream.rs) and with
// the text the verifier accepted (vlib/xlat.py).  No dependencies, no `use`.

pub enum R { Enc(usize, usize, usize), ErrE(u32, usize, usize, usize), ErrD(bool, usize, usize, usize) }
pub type EFn = fn(&str, &mut [u8], bool) -> R;
pub type DFn = fn(&[u8], &mut [u8], bool) -> R;

struct H(u64);
impl H { fn put(&mut self, v: u64) { self.0 = (self.0 ^ v).wrapping_mul(0x100000001B3).rotate_left(29) ^ (v >> 7); } }
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
}

const CH: &[u32] = &[0x41, 0x7F, 0x80, 0xE9, 0xCA, 0xEA, 0x304, 0x30C, 0x303, 0x7FF, 0x800, 0x3042, 0x4E00, 0x20AC, 0x401, 0x44F, 0xFF61, 0xFF9F, 0xA5, 0x203E,
    0x2212, 0xFF0D, 0xE000, 0xE757, 0xD7FF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x20000, 0x2F9D4, 0x10FFFF, 0xA0, 0xFF, 0x5E8, 0xE01, 0x2550, 0x5341, 0x3000, 0xFEFF];
const BY: &[u8] = &[0x41, 0x00, 0x7F, 0x80, 0x81, 0x88, 0x62, 0x64, 0xA3, 0xA5, 0x40, 0x7E, 0x9F, 0xA0, 0xA1, 0xBF, 0xC2, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xE3, 0xED, 0xEF,
    0xF0, 0xF1, 0xF4, 0xF5, 0xF9, 0xFC, 0xFD, 0xFE, 0xFF, 0x90, 0x8F, 0x3D, 0x10, 0xA4, 0xC0];

fn rec(h: &mut H, r: Option<R>, base: usize, out: &[u8]) {
    match r {
        None => h.put(99),
        Some(R::Enc(p, l, n)) => { h.put(1); h.put((p == base || l == 0) as u64); h.put(l as u64); h.put(n as u64); }
        Some(R::ErrE(c, a, b, w)) => { h.put(2); h.put(c as u64); h.put(a as u64); h.put(b as u64); h.put(w as u64); }
        Some(R::ErrD(c, a, b, w)) => { h.put(3); h.put(c as u64); h.put(a as u64); h.put(b as u64); h.put(w as u64); }
    }
    for c in out.chunks(8) { let mut v = 0u64; for &x in c { v = v << 8 | x as u64; } h.put(v); }
}

struct Run<'a> { name: &'a str, blk: u64, n: u64, h: H, total: u64 }
impl<'a> Run<'a> {
    fn done(&mut self) { if self.n > 0 { println!("{} {} {:016x} {}", self.name, self.blk, self.h.0, self.n); self.blk += 1; self.total += self.n; self.n = 0; self.h = H(17); } }
    fn rec(&mut self, r: Option<R>, base: usize, out: &[u8]) { rec(&mut self.h, r, base, out); self.n += 1; if self.n == 20000 { self.done(); } }
}

fn lens(dict: &[u64]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for &d in dict { if d > 12 && d <= 4100 && v.len() < 24 { for w in [d - 1, d, d + 1] { v.push(w as usize); } } }
    v
}

pub fn enc(name: &str, f: EFn, dict: &[u64], quick: bool) {
    let mut r = Run { name, blk: 0, n: 0, h: H(17), total: 0 };
    let mut buf = vec![0u8; 9000];
    let mut go = |r: &mut Run, s: &str, n: usize, end: bool| {
        let b = &mut buf[..n];
        for x in b.iter_mut() { *x = 0xAA; }
        let p = b.as_ptr() as usize;
        let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s, b, end))).ok();
        r.rec(q, p, &buf[..n]);
    };
    let mut t = String::new();
    let mut v = 0u32;
    while v < 0x110000 {
        if let Some(c) = char::from_u32(v) { t.clear(); t.push(c); go(&mut r, &t, 4, v & 1 == 0); }
        v += if v < 0x30000 { 1 } else if quick { 251 } else { 7 };
    }
    let mut ch: Vec<char> = CH.iter().filter_map(|&v| char::from_u32(v)).collect();
    for &d in dict { for w in [d, d + 1, d.wrapping_sub(1)] { if w < 0x110000 { if let Some(c) = char::from_u32(w as u32) { if !ch.contains(&c) && ch.len() < 120 { ch.push(c); } } } } }
    for &a in &ch { for &b in &ch { t.clear(); t.push(a); t.push(b); for n in [0usize, 1, 2, 3, 4, 5, 8] { go(&mut r, &t, n, n & 1 == 0); } } }
    let mut g = Rng(0x9E3779B97F4A7C15);
    for _ in 0..(if quick { 20000 } else { 400000 }) {
        t.clear();
        let base = g.below(ch.len());
        for _ in 0..g.below(14) { let i = if g.below(3) == 0 { g.below(ch.len()) } else { base }; t.push(ch[i]); }
        let (n, e) = (g.below(24), g.below(2) == 0);
        go(&mut r, &t, n, e);
    }
    for n in lens(dict) { for k in 0..3 { t.clear(); for j in 0..n + 3 { t.push(if k == 0 { 'A' } else { ch[(j * k + g.below(3)) % 4 * k % ch.len()] }); } for m in [n - 1, n, n + 2, 2 * n] { go(&mut r, &t, m, k == 0); } } }
    r.done();
    println!("{} total {}", name, r.total);
}

pub fn dec(name: &str, f: DFn, dict: &[u64], quick: bool) {
    let mut r = Run { name, blk: 0, n: 0, h: H(17), total: 0 };
    let mut buf = vec![0u8; 9000];
    let mut go = |r: &mut Run, s: &[u8], n: usize, end: bool| {
        let b = &mut buf[..n];
        for x in b.iter_mut() { *x = 0xAA; }
        let p = b.as_ptr() as usize;
        let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s, b, end))).ok();
        r.rec(q, p, &buf[..n]);
    };
    for a in 0..256usize { for b in 0..256usize { let s = [a as u8, b as u8, 0x80, 0x80]; go(&mut r, &s[..2], 7, b & 1 == 0); go(&mut r, &s, 7, b & 2 == 0); } }
    for a in 0..256usize { for end in [false, true] { go(&mut r, &[a as u8], 4, end); go(&mut r, &[0x41, a as u8], 4, end); } }
    let mut by: Vec<u8> = BY.to_vec();
    for &d in dict { for w in [d, d + 1, d.wrapping_sub(1), d >> 8] { if w < 256 && !by.contains(&(w as u8)) && by.len() < 100 { by.push(w as u8); } } }
    let mut g = Rng(0x9E3779B97F4A7C15);
    let mut t: Vec<u8> = vec![];
    for _ in 0..(if quick { 60000 } else { 1000000 }) {
        t.clear();
        let base = g.below(by.len());
        for _ in 0..g.below(14) { let i = if g.below(4) == 0 { base } else { g.below(by.len()) }; t.push(by[i]); }
        let (n, e) = (g.below(24), g.below(2) == 0);
        go(&mut r, &t, n, e);
    }
    // well-formed text in the forms that have structure
    for k in 0..(if quick { 4000 } else { 40000 }) {
        t.clear();
        for _ in 0..g.below(8) {
            let c = char::from_u32(CH[g.below(CH.len())]).unwrap_or('A');
            let mut u = [0u16; 2];
            let mut u8b = [0u8; 4];
            match k % 5 {
                0 => t.extend_from_slice(c.encode_utf8(&mut u8b).as_bytes()),
                1 => for x in c.encode_utf16(&mut u).iter() { t.extend_from_slice(&x.to_le_bytes()) },
                2 => for x in c.encode_utf16(&mut u).iter() { t.extend_from_slice(&x.to_be_bytes()) },
                3 => t.extend_from_slice(&(c as u32).to_le_bytes()),
                _ => t.extend_from_slice(&(c as u32).to_be_bytes()),
            }
        }
        let (n, e) = (g.below(34), g.below(2) == 0);
        go(&mut r, &t, n, e);
    }
    for n in lens(dict) { for k in 0..3usize { t.clear(); for j in 0..n + 3 { t.push(if k == 0 { 0x41 } else { by[(j * k + g.below(3)) % 4 * k % by.len()] }); } for m in [n - 1, n, n + 2, 2 * n] { go(&mut r, &t, m, k == 0); } } }
    r.done();
    println!("{} total {}", name, r.total);
}
