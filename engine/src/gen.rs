//! The families of inputs that are explored.
use crate::*;

pub struct Job { pub ei: usize, pub run: Box<dyn Fn(&mut Ctx) + Send + Sync> }

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n.max(1) }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}

const CHARS: &[u32] = &[
    0x41, 0xE9, 0x4E00, 0x1F600, 0xCA, 0x304, 0x30C, 0xEA, 0x7F, 0x80, 0x81, 0, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000,
    0xA5, 0x203E, 0x2212, 0xFF0D, 0xFF60, 0xFF61, 0xFF9F, 0xFFA0, 0xE757, 0xE758, 0x5C, 0x7E, 0xA0, 0xFF, 0x100, 0x20AC, 0x3042, 0x3000,
    0xFFFD, 0xFEFF, 0xFFFE, 0x2550, 0x5341, 0x20000, 0x2F9D4, 0x303, 0x305, 0x30B, 0x30D, 0x300, 0x301, 0x302, 0xC9, 0xCB, 0xE8, 0xEB, 0x401, 0x44F,
    0x5E8, 0x627, 0xE01, 0x1EF9, 0xB0, 0x2022, 0x3BC, 0xAC00, 0x30A1, 0x9FA5, 0x3FF, 0x400, 0x1FFFF, 0xFFFFF, 0x100000, 0xF900, 0xFA0E, 0x7E8A,
];
const BYTES: &[u8] = &[
    0x41, 0x80, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xA0, 0x9F, 0x90, 0x8F, 0xBF, 0xFF, 0x00, 0x7F, 0x40, 0x7E, 0x81, 0x88, 0x62, 0x64, 0x66, 0xA3, 0xA5,
    0xA4, 0xA1, 0xC0, 0xC1, 0xDF, 0xE1, 0xEE, 0xEF, 0xF1, 0xF5, 0xFC, 0xFD, 0xFE, 0xD8, 0xDB, 0xDC, 0xD7, 0xF9, 0xF3, 0x3D, 0x5C, 0x3F, 0xFA, 0xC7, 0x85, 0xD9, 0xE2, 0xF8, 0x10, 0x11, 0x01,
];

fn ch(v: u32) -> Option<char> { char::from_u32(v) }

struct Lex { chars: Vec<char>, bytes: Vec<u8>, lens: Vec<usize>, nums: Vec<u32> }

fn lex(o: &Oracle, dict: &[u64]) -> Lex {
    let mut chars: Vec<char> = vec![];
    let mut add = |v: u32| if let Some(c) = ch(v) { if !chars.contains(&c) { chars.push(c) } };
    for &v in &CHARS[..19] { add(v); }
    // First, last and some middle characters the encoding has.
    let known: Vec<u32> = o.dec.iter().cloned().filter(|&x| x != 0).collect();
    if !known.is_empty() { for k in [0, known.len() - 1, known.len() / 2, known.len() / 3] { add(known[k]); } }
    for &v in &CHARS[19..] { add(v); }
    let mut d: Vec<u64> = dict.to_vec();
    d.sort();
    d.dedup();
    let mut nums: Vec<u32> = vec![];
    for &v in d.iter().take(400) {
        for w in [v, v.wrapping_sub(1), v + 1] { if w <= 0xFFFF_FFFF { nums.push(w as u32); if chars.len() < 260 { let mut add = |v: u32| if let Some(c) = ch(v) { if !chars.contains(&c) { chars.push(c) } }; add(w as u32); } } }
    }
    let mut bytes: Vec<u8> = BYTES.to_vec();
    for &v in d.iter() { if v < 256 { for w in [v, v.wrapping_sub(1) & 255, (v + 1) & 255] { if !bytes.contains(&(w as u8)) { bytes.push(w as u8); } } } else if v < 0x10000 { for w in [v >> 8, v & 255] { if !bytes.contains(&(w as u8)) && bytes.len() < 120 { bytes.push(w as u8); } } } }
    let mut lens: Vec<usize> = (0..=70).collect();
    for m in [128usize, 256, 512, 1024, 2048, 4096] { for x in m - 3..=m + 3 { lens.push(x); } }
    for &v in &d { if v > 70 && v <= 9000 { for w in [v - 1, v, v + 1] { lens.push(w as usize); } } }
    lens.sort();
    lens.dedup();
    nums.sort();
    nums.dedup();
    Lex { chars, bytes, lens, nums }
}

fn all_scalars() -> impl Iterator<Item = char> { (0u32..0x110000).filter_map(char::from_u32) }

/// Around the lengths at which a 16-bit counter of bytes (or of characters of 2, 3, 4 bytes) wraps.
const XL: &[usize] = &[16384, 21846, 32768, 65535, 65536, 65541];
/// A non-ASCII character the encoding has.
fn longest(o: &Oracle) -> char { if o.kind == Kind::Big5 || o.kind == Kind::Sjis || o.kind == Kind::Sb { o.dec.iter().filter_map(|&x| if x > 0x7F { ch(x) } else { None }).next().unwrap_or('\u{e9}') } else { '\u{1f600}' } }

/// The n-th string over an alphabet of k symbols with the given length.
fn nth(mut x: usize, k: usize, len: usize) -> Vec<usize> { let mut v = vec![0; len]; for i in 0..len { v[i] = x % k; x /= k; } v }

fn units16(l: &Lex) -> Vec<u16> {
    let mut v: Vec<u16> = vec![0x41, 0, 0x20AC, 0x4E00, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFF, 0xFFFE, 0xFEFF, 0xFFFD, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xDA00, 0xDE00, 0xD8D8, 0xDCDC, 0xDCD8, 0xD8DC, 0x00D8, 0x00DC];
    for &n in &l.nums { if n < 0x10000 && v.len() < 200 && !v.contains(&(n as u16)) { v.push(n as u16); } }
    v
}
fn units32(l: &Lex) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0x41, 0, 0x20AC, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x00D80000, 0xD8000000, 0x41000000, 0x00410000, 0xFEFF, 0xFFFE0000, 0xFFFE, 0x7F, 0x80, 0x7FF, 0x800];
    for &n in &l.nums { if v.len() < 200 && !v.contains(&n) { v.push(n); } }
    v
}
fn put16(be: bool, u: u16) -> [u8; 2] { if be { u.to_be_bytes() } else { u.to_le_bytes() } }
fn put32(be: bool, u: u32) -> [u8; 4] { if be { u.to_be_bytes() } else { u.to_le_bytes() } }

/// Short byte strings that are complete symbols, broken symbols or parts of symbols.
fn tokens(o: &Oracle, l: &Lex) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    match o.kind {
        Kind::Utf8 => {
            for s in ["A", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{800}", "\u{ffff}", "\u{10ffff}", "\u{7ff}", "\u{d7ff}"] { v.push(s.as_bytes().to_vec()); }
            for s in ["80", "bf", "c0", "c2", "e0", "e2", "e282", "f0", "f09f", "f09f98", "f4", "f490", "ff", "eda0", "ed", "e080", "f080", "f5", "c1"] { v.push(unhex(s)); }
        }
        Kind::Utf16(be) => { for u in units16(l).into_iter().take(30) { v.push(put16(be, u).to_vec()); } v.push(vec![0xD8]); v.push(vec![0x41]); v.push(vec![0]); }
        Kind::Utf32(be) => { for u in units32(l).into_iter().take(30) { v.push(put32(be, u).to_vec()); } v.push(vec![0]); v.push(vec![0, 0]); v.push(vec![0xFF, 0, 1]); }
        _ => {
            for &b in l.bytes.iter().take(54) { v.push(vec![b]); }
            if o.kind != Kind::Sb { for s in ["8862", "8864", "88a3", "88a5", "8866", "a440", "c6a1", "f9d5", "fefe", "8140", "87fe", "88fe", "81fc", "e040", "9ffc", "f040", "f9fc", "fc4b", "fc4c", "eaa4", "8180", "817f", "889f", "fafc", "ed40", "8740", "fa4a"] { v.push(unhex(s)); } }
        }
    }
    v
}
fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn splits(len: usize, x: usize, cuts: &mut Vec<usize>) { cuts.clear(); for i in 1..len { if x >> (i - 1) & 1 == 1 { cuts.push(i); } } cuts.push(len); }
const BUFS: &[&[usize]] = &[&[4], &[5], &[64], &[4, 7], &[6], &[4, 4, 9]];

pub fn jobs(want: &[usize], oracles: &[Oracle], apis: &[Api], thorough: bool, dicts: &[Vec<u64>], seed: u64) -> Vec<Job> {
    let w = |ps: &[usize]| want.iter().any(|p| ps.contains(p));
    let mut v: Vec<(u32, Job)> = vec![];
    for ei in 0..apis.len() {
        let o = &oracles[ei];
        let dict = &dicts[ei][..];
        let g = group_of(o.kind);
        let grp = w(&[g]);
        let only_group = want.iter().all(|p| (11..=14).contains(p));
        if only_group && !grp { continue; }
        let sb = o.kind == Kind::Sb;
        macro_rules! job { ($pri:expr, $f:expr) => { v.push(($pri, Job { ei, run: Box::new($f) })) } }
        let stop_every = 0xFFFusize;
        let _ = stop_every;

        // ---- encoding
        if w(&[1, 3, 4, 5]) || grp {
            {
                let l = lex(o, dict);
                job!(0, move |c: &mut Ctx| {
                    let a = &l.chars;
                    c.enc_text(&[], "", Ns::Upto(4));
                    for &x in a { let t = [x]; c.enc_text(&t, &t.iter().collect::<String>(), Ns::Upto(8)); }
                    for &x in a { if c.stop() { return; } for &y in a { let t = [x, y]; c.enc_text(&t, &t.iter().collect::<String>(), Ns::Upto(9)); } }
                });
            }
            {
                let l = lex(o, dict);
                job!(2, move |c: &mut Ctx| {
                    let k = if thorough { 40 } else { 26 };
                    let a = &l.chars[..l.chars.len().min(k)];
                    for x in 0..a.len().pow(3) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<char> = nth(x, a.len(), 3).iter().map(|&i| a[i]).collect(); c.enc_text(&t, &t.iter().collect::<String>(), Ns::All(16)); }
                    let a = &a[..8];
                    for len in [4, 5] { for x in 0..a.len().pow(len as u32) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<char> = nth(x, a.len(), len).iter().map(|&i| a[i]).collect(); c.enc_text(&t, &t.iter().collect::<String>(), Ns::All(24)); } }
                });
            }
            for part in 0..4u32 {
                let pairs = o.kind == Kind::Big5;
                job!(1, move |c: &mut Ctx| {
                    let mut s = String::new();
                    for x in all_scalars() {
                        let v = x as u32;
                        if v % 4 != part { continue; }
                        if v & 0x3FF == part && c.stop() { return; }
                        s.clear(); s.push(x);
                        c.enc_text(&[x], &s, Ns::Upto(5));
                        // what may follow a character that has codes of its own with some marks
                        if pairs { for b in ['\u{ca}', '\u{ea}'] { s.clear(); s.push(b); s.push(x); c.enc_text(&[b, x], &s, if v < 0x30000 { Ns::Upto(5) } else { Ns::Big }); } }
                        s.clear(); s.push('a'); s.push(x); s.push('b');
                        c.enc_text(&['a', x, 'b'], &s, Ns::Big);
                        if v < 0x30000 {
                            c.enc_text(&['a', x, 'b'], &s, Ns::Upto(6));
                            s.clear(); s.push(x); s.push(x);
                            c.enc_text(&[x, x], &s, Ns::Upto(6));
                        }
                    }
                });
            }
            {
                let l = lex(o, dict);
                // Texts longer than 16 bits can count, in bytes or in characters.
                let (ok, x) = (longest(o), l.chars[l.chars.len() / 2]);
                job!(1, move |c: &mut Ctx| {
                    for &base in &['a', ok] { for &len in XL {
                        for sp in [None, Some('\u{2603}'), Some(x)] {
                            if c.stop() { return; }
                            let mut t = vec![base; len];
                            t.extend(sp);
                            c.enc_text(&t, &t.iter().collect::<String>(), Ns::Some4);
                        }
                    } }
                });
            }
            {
                let l = lex(o, dict);
                job!(2, move |c: &mut Ctx| {
                    let n = if thorough { 60 } else { 18 };
                    for &len in &l.lens {
                        let short = len <= 70;
                        for (bi, &base) in ['a', '\u{e9}', '\u{4e00}', '\u{1f600}', '\u{ca}', '\u{7e8a}', '\u{e000}', '\u{401}'].iter().enumerate() {
                            if len > 1100 && bi > 3 && !thorough { break; }
                            if c.stop() { return; }
                            let t = vec![base; len];
                            c.enc_text(&t, &t.iter().collect::<String>(), if len <= 20 { Ns::All(200) } else { Ns::Near });
                            if bi > 3 { continue; }
                            for &sp in l.chars.iter().take(if short { n } else { 6 }) {
                                for pos in if short { vec![len, len / 2, 0] } else { vec![len, len / 2] } {
                                    let mut t = vec![base; len];
                                    t.insert(pos, sp);
                                    c.enc_text(&t, &t.iter().collect::<String>(), Ns::Near);
                                }
                            }
                        }
                    }
                });
            }
            {
                let l = lex(o, dict);
                let known: Vec<char> = o.dec.iter().filter_map(|&x| if x != 0 { ch(x) } else { None }).collect();
                job!(3, move |c: &mut Ctx| {
                    let mut r = Rng::new(seed * 7919 + ei as u64 + 1);
                    for it in 0..if thorough { 200000 } else { 12000 } {
                        if it & 0x3F == 0 && c.stop() { return; }
                        let len = 1 + r.below(if it % 16 == 0 { 300 } else { 24 });
                        let mode = r.below(4);
                        let t: Vec<char> = (0..len).map(|_| match r.below(8) {
                            0 => r.pick(&l.chars),
                            1 | 2 if mode != 0 => ch(r.below(0x110000) as u32).unwrap_or('x'),
                            3..=5 if !known.is_empty() => r.pick(&known),
                            6 => r.pick(&l.chars[..8]),
                            _ => (0x20 + r.below(0x5F)) as u8 as char,
                        }).filter(|&x| mode > 1 || sb_ok(&known, x)).collect();
                        c.enc_text(&t, &t.iter().collect::<String>(), Ns::Near);
                    }
                });
            }
        }

        // ---- decoding
        if w(&[1, 2, 6, 7, 8, 17]) || grp {
            job!(0, move |c: &mut Ctx| {
                c.dec_bytes(&[], Ns::Upto(4));
                for x in 0..=255u8 { c.dec_bytes(&[x], Ns::Upto(7)); }
                for x in 0..65536u32 { if x & 0xFFF == 0 && c.stop() { return; } c.dec_bytes(&[(x >> 8) as u8, x as u8], Ns::Upto(8)); }
            });
            for part in 0..if sb { 0 } else { 8usize } {
                let l = lex(o, dict);
                let kind = o.kind;
                job!(1, move |c: &mut Ctx| {
                    let m = if matches!(kind, Kind::Utf8 | Kind::Big5 | Kind::Sjis) && thorough { 256 } else { l.bytes.len().min(if thorough { 200 } else { 90 }) };
                    let full = m == 256;
                    for x in 0..65536usize {
                        if x % 8 != part { continue; }
                        if x & 0x3F8 == 0 && c.stop() { return; }
                        for k in 0..m { let z = if full { k as u8 } else { l.bytes[k] }; c.dec_bytes(&[(x >> 8) as u8, x as u8, z], Ns::Big); }
                    }
                });
            }
            {
                let l = lex(o, dict);
                job!(2, move |c: &mut Ctx| {
                    let k = if sb { 14 } else { 30 };
                    let a = &l.bytes[..l.bytes.len().min(if thorough { k + 15 } else { k })];
                    for x in 0..a.len().pow(3) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<u8> = nth(x, a.len(), 3).iter().map(|&i| a[i]).collect(); c.dec_bytes(&t, Ns::All(12)); }
                    let a = &l.bytes[..if sb { 6 } else { 16 }];
                    for x in 0..a.len().pow(4) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<u8> = nth(x, a.len(), 4).iter().map(|&i| a[i]).collect(); c.dec_bytes(&t, Ns::All(12)); }
                    let a = &a[..6];
                    for len in [5, 6] { for x in 0..a.len().pow(len) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<u8> = nth(x, a.len(), len as usize).iter().map(|&i| a[i]).collect(); c.dec_bytes(&t, Ns::All(14)); } }
                });
            }
            if let Kind::Utf8 = o.kind {
                for part in 0..8usize {
                    job!(1, move |c: &mut Ctx| {
                        // Every well-formed four-byte character, and around the edges.
                        for v in 0x10000u32..0x110000 {
                            if v as usize % 8 != part { continue; }
                            if v & 0xFFF == part as u32 && c.stop() { return; }
                            let (b, n) = utf8_of(v);
                            c.dec_bytes(&b[..n], Ns::Big);
                        }
                        let e = [0u8, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF];
                        for b0 in 0xE0..=0xFFu8 { if b0 as usize % 8 != part { continue; } if c.stop() { return; } for b1 in 0..=255u8 { for &b2 in &e { for &b3 in &e { c.dec_bytes(&[b0, b1, b2, b3], Ns::Big); } } } }
                    });
                }
            }
            if let Kind::Utf16(be) = o.kind {
                let l = lex(o, dict);
                job!(1, move |c: &mut Ctx| {
                    for h in 0xD800..=0xDBFFu16 { if c.stop() { return; } for w in 0xDC00..=0xDFFFu16 { let (a, b) = (put16(be, h), put16(be, w)); c.dec_bytes(&[a[0], a[1], b[0], b[1]], Ns::Big); } }
                    let us = units16(&l);
                    for &u in &us { if c.stop() { return; } for w in 0..=0xFFFFu16 { let (a, b) = (put16(be, u), put16(be, w)); c.dec_bytes(&[a[0], a[1], b[0], b[1]], Ns::Big); c.dec_bytes(&[b[0], b[1], a[0], a[1]], Ns::Big); } }
                    for &x in us.iter().take(40) { if c.stop() { return; } for &y in us.iter().take(40) { for &z in us.iter().take(40) { let t = [put16(be, x), put16(be, y), put16(be, z)].concat(); c.dec_bytes(&t, Ns::All(10)); c.dec_bytes(&t[..5], Ns::All(10)); } } }
                });
            }
            if let Kind::Utf32(be) = o.kind {
                let l = lex(o, dict);
                job!(1, move |c: &mut Ctx| {
                    for v in 0..0x120000u32 { if v & 0xFFF == 0 && c.stop() { return; } c.dec_bytes(&put32(be, v), Ns::Big); }
                    for hi in 0..0x10000u32 { if hi & 0xFF == 0 && c.stop() { return; } for lo in [0u32, 0x41, 0x80, 0xD800, 0xDFFF, 0xFFFF, 0xE000, 0xFF] { c.dec_bytes(&put32(be, hi << 16 | lo), Ns::Big); } }
                    let us = units32(&l);
                    for &x in us.iter() { if c.stop() { return; } for &y in us.iter() { let t = [put32(be, x), put32(be, y)].concat(); for k in 4..=8 { c.dec_bytes(&t[..k], Ns::All(10)); } } }
                    for &x in us.iter().take(30) { if c.stop() { return; } for &y in us.iter().take(30) { for &z in us.iter().take(30) { let t = [put32(be, x), put32(be, y), put32(be, z)].concat(); c.dec_bytes(&t, Ns::All(14)); } } }
                });
            }
            {
                let toks = tokens(o, &lex(o, dict));
                job!(2, move |c: &mut Ctx| {
                    let m = toks.len().min(if thorough { 80 } else { 50 });
                    for x in 0..m { if c.stop() { return; } for y in 0..toks.len() { let t = [&toks[x][..], &toks[y][..]].concat(); c.dec_bytes(&t, Ns::All(14)); } }
                    let m = m.min(28);
                    for x in 0..m.pow(3) { if x & 0xFF == 0 && c.stop() { return; } let t: Vec<u8> = nth(x, m, 3).iter().flat_map(|&i| toks[i].clone()).collect(); c.dec_bytes(&t, Ns::All(16)); }
                });
            }
            {
                let l = lex(o, dict);
                let toks = tokens(o, &l);
                let ts = toks.clone();
                job!(1, move |c: &mut Ctx| {
                    let good: Vec<Vec<u8>> = ts.iter().filter(|t| { let mut p = Plan::default(); p.dec(c.o, t); p.stop == Some(Stop::Done) }).cloned().collect();
                    let bad: Vec<Vec<u8>> = ts.iter().filter(|t| { let mut p = Plan::default(); p.dec(c.o, t); p.stop != Some(Stop::Done) }).cloned().collect();
                    for b in [good.first(), good.iter().find(|x| x.len() > 1 || x[0] > 0x7F)].iter().flatten() { for &len in XL {
                        for sp in [None, bad.first(), good.last()] {
                            if c.stop() { return; }
                            let mut t = b.repeat(len);
                            if let Some(s) = sp { t.extend_from_slice(s); }
                            c.dec_bytes(&t, Ns::Some4);
                        }
                    } }
                });
                job!(2, move |c: &mut Ctx| {
                    // Runs of one symbol, with another one at the end, in the middle, in front.
                    let mut bases: Vec<Vec<u8>> = toks.iter().filter(|t| { let mut p = Plan::default(); p.dec(c.o, t); p.stop == Some(Stop::Done) }).cloned().collect();
                    bases.truncate(if thorough { 12 } else { 5 });
                    for &len in &l.lens {
                        let short = len <= 70;
                        for (bi, b) in bases.iter().enumerate() {
                            if c.stop() { return; }
                            if len > 1100 && bi > 2 && !thorough { break; }
                            let run = b.repeat(len);
                            c.dec_bytes(&run, if len <= 20 { Ns::All(200) } else { Ns::Near });
                            for sp in toks.iter().take(if short { if thorough { 80 } else { 30 } } else { 12 }) {
                                for pos in if short { vec![len, len / 2, 0] } else { vec![len, len / 2] } {
                                    let mut t = run[..pos * b.len()].to_vec();
                                    t.extend_from_slice(sp);
                                    t.extend_from_slice(&run[pos * b.len()..]);
                                    c.dec_bytes(&t, Ns::Near);
                                }
                            }
                        }
                    }
                });
            }
            {
                let l = lex(o, dict);
                let toks = tokens(o, &l);
                let known = known_codes(o);
                job!(3, move |c: &mut Ctx| {
                    let mut r = Rng::new(seed * 7919 + ei as u64 + 101);
                    for it in 0..if thorough { 200000 } else { 12000 } {
                        if it & 0x3F == 0 && c.stop() { return; }
                        let t = random_bytes(&mut r, &toks, &known, &l, it);
                        c.dec_bytes(&t, Ns::Near);
                    }
                });
            }
        }

        // ---- streaming
        if w(&[9]) {
            let l = lex(o, dict);
            job!(1, move |c: &mut Ctx| {
                let a = &l.chars[..l.chars.len().min(if thorough { 60 } else { 24 })];
                let mut cuts = vec![];
                for len in 1..=3usize {
                    for x in 0..a.len().pow(len as u32) {
                        if x & 0xFF == 0 && c.stop() { return; }
                        let t: Vec<char> = nth(x, a.len(), len).iter().map(|&i| a[i]).collect();
                        let s: String = t.iter().collect();
                        let offs: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
                        for sp in 0..1usize << (len - 1) {
                            splits(len, sp, &mut cuts);
                            let cu: Vec<usize> = cuts.iter().map(|&i| offs[i]).collect();
                            for b in &BUFS[..4] { c.stream_enc(&s, &cu, b); }
                        }
                    }
                }
                let a = &l.chars[..8];
                for len in 4..=5usize {
                    for x in 0..a.len().pow(len as u32) {
                        if x & 0xFF == 0 && c.stop() { return; }
                        let s: String = nth(x, a.len(), len).iter().map(|&i| a[i]).collect();
                        let offs: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
                        for sp in 0..1usize << (len - 1) {
                            splits(len, sp, &mut cuts);
                            let cu: Vec<usize> = cuts.iter().map(|&i| offs[i]).collect();
                            c.stream_enc(&s, &cu, BUFS[(x + sp) % BUFS.len()]);
                        }
                    }
                }
            });
            let l = lex(o, dict);
            let known: Vec<char> = o.dec.iter().filter_map(|&x| if x != 0 { ch(x) } else { None }).collect();
            let ok = longest(o);
            job!(1, move |c: &mut Ctx| {
                for &base in &['a', ok] { for &len in XL {
                    if c.stop() { return; }
                    let s: String = std::iter::repeat(base).take(len).chain(['b', ok]).collect();
                    let k = base.len_utf8();
                    for cut in [k * len, k * (len / 2)] { c.stream_enc(&s, &[cut, s.len()], &[400000]); }
                } }
            });
            let pairs = o.kind == Kind::Big5;
            job!(2, move |c: &mut Ctx| {
                for x in all_scalars() {
                    if x as u32 & 0xFFF == 0 && c.stop() { return; }
                    if x as u32 >= 0x30000 && x as u32 & 0xFF != 0x41 { continue; }
                    let s: String = ['a', x, x].iter().collect();
                    let k = x.len_utf8();
                    c.stream_enc(&s, &[1 + k, 1 + 2 * k], &[4]);
                    c.stream_enc(&s, &[1 + 2 * k], &[5, 4]);
                    if pairs { for b in ['\u{ca}', '\u{ea}'] { let s: String = [b, x].iter().collect(); c.stream_enc(&s, &[2, 2 + k], &[4]); } }
                }
                let mut r = Rng::new(seed * 7919 + ei as u64 + 201);
                for it in 0..if thorough { 300000 } else { 20000 } {
                    if it & 0x3F == 0 && c.stop() { return; }
                    let len = 1 + r.below(if it % 16 == 0 { 200 } else { 20 });
                    let mode = r.below(3);
                    let s: String = (0..len).map(|_| match r.below(8) {
                        0 => r.pick(&l.chars), 1 if mode != 0 => ch(r.below(0x110000) as u32).unwrap_or('x'), 2..=4 if !known.is_empty() => r.pick(&known),
                        5 | 6 => r.pick(&l.chars[..8]), _ => (0x20 + r.below(0x5F)) as u8 as char,
                    }).filter(|&x| mode > 0 || sb_ok(&known, x)).collect();
                    let mut cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).filter(|_| r.below(3) == 0).filter(|&i| i > 0).collect();
                    cuts.push(s.len());
                    let bufs: Vec<usize> = (0..1 + r.below(4)).map(|_| 4 + match r.below(3) { 0 => 0, 1 => r.below(6), _ => r.below(40) }).collect();
                    c.stream_enc(&s, &cuts, &bufs);
                }
                for &len in &l.lens {
                    for &base in &['a', '\u{ca}', '\u{4e00}'] {
                        if c.stop() { return; }
                        for &sp in l.chars.iter().take(10) {
                            let s: String = std::iter::repeat(base).take(len).chain([sp, 'z']).collect();
                            let cut = base.len_utf8() * len;
                            let cuts: Vec<usize> = if cut > 0 { vec![cut, s.len()] } else { vec![s.len()] };
                            for n in [4, len.max(4), len + 5, len * 4 + 4] { c.stream_enc(&s, &cuts, &[n]); }
                        }
                    }
                }
            });
        }
        if w(&[10]) {
            let l = lex(o, dict);
            let toks = tokens(o, &l);
            job!(1, move |c: &mut Ctx| {
                let mut cuts = vec![];
                // Without the flag an unfinished character cannot be announced, and there is none.
                let a = &l.bytes[..if sb { 8 } else if thorough { 24 } else { 16 }];
                for len in 1..=4usize {
                    for x in 0..a.len().pow(len as u32) {
                        if x & 0xFF == 0 && c.stop() { return; }
                        let t: Vec<u8> = nth(x, a.len(), len).iter().map(|&i| a[i]).collect();
                        for sp in 0..1usize << (len - 1) { splits(len, sp, &mut cuts); for b in &BUFS[..2] { c.stream_dec(&t, &cuts, b); } }
                    }
                }
                let m = toks.len().min(40);
                for x in 0..m * m {
                    if x & 0x3F == 0 && c.stop() { return; }
                    let t = [&toks[x / m][..], &toks[x % m][..]].concat();
                    for sp in 0..1usize << (t.len() - 1) { splits(t.len(), sp, &mut cuts); c.stream_dec(&t, &cuts, BUFS[(x + sp) % BUFS.len()]); }
                }
                let m = toks.len().min(if sb { 14 } else { 26 });
                for x in 0..m.pow(3) {
                    if x & 0x3F == 0 && c.stop() { return; }
                    let t: Vec<u8> = nth(x, m, 3).iter().flat_map(|&i| toks[i].clone()).collect();
                    let all = 1usize << (t.len() - 1);
                    if all <= 64 { for sp in 0..all { splits(t.len(), sp, &mut cuts); c.stream_dec(&t, &cuts, BUFS[(x + sp) % BUFS.len()]); } }
                    else { for k in 1..t.len() { c.stream_dec(&t, &[k, t.len()], BUFS[(x + k) % BUFS.len()]); } splits(t.len(), all - 1, &mut cuts); for b in BUFS { c.stream_dec(&t, &cuts, b); } }
                }
            });
            let l = lex(o, dict);
            let toks = tokens(o, &l);
            let known = known_codes(o);
            let ts = toks.clone();
            job!(1, move |c: &mut Ctx| {
                let good: Vec<Vec<u8>> = ts.iter().filter(|t| { let mut p = Plan::default(); p.dec(c.o, t); p.stop == Some(Stop::Done) }).cloned().collect();
                for b in [good.first(), good.iter().find(|x| x.len() > 1 || x[0] > 0x7F)].iter().flatten() { for &len in XL {
                    if c.stop() { return; }
                    let mut t = b.repeat(len);
                    if let Some(s) = good.last() { t.extend_from_slice(s); }
                    for cut in [t.len() - 1, 70000.min(t.len() / 2 + 1)] { c.stream_dec(&t, &[cut, t.len()], &[400000]); }
                } }
            });
            job!(2, move |c: &mut Ctx| {
                for k in &known { for cut in 1..=k.len() { c.stream_dec(&[&k[..], b"a"].concat(), &[cut, k.len() + 1], &[4]); } }
                for x in 0..65536u32 { if x & 0xFFF == 0 && c.stop() { return; } c.stream_dec(&[(x >> 8) as u8, x as u8], &[1, 2], &[4]); c.stream_dec(&[0x41, (x >> 8) as u8, x as u8, 0x41], &[2, 4], &[4, 5]); }
                let mut r = Rng::new(seed * 7919 + ei as u64 + 301);
                for it in 0..if thorough { 300000 } else { 20000 } {
                    if it & 0x3F == 0 && c.stop() { return; }
                    let t = random_bytes(&mut r, &toks, &known, &l, it);
                    if t.is_empty() { continue; }
                    let mut cuts: Vec<usize> = (1..t.len()).filter(|_| r.below(3) == 0).collect();
                    cuts.push(t.len());
                    let bufs: Vec<usize> = (0..1 + r.below(4)).map(|_| 4 + match r.below(3) { 0 => 0, 1 => r.below(6), _ => r.below(40) }).collect();
                    c.stream_dec(&t, &cuts, &bufs);
                }
                for &len in &l.lens {
                    for b in toks.iter().filter(|t| { let mut p = Plan::default(); p.dec(c.o, t); p.stop == Some(Stop::Done) }).take(4) {
                        if c.stop() { return; }
                        for sp in toks.iter().take(10) {
                            let t = [&b.repeat(len)[..], &sp[..], &b[..]].concat();
                            for d in [0usize, 1] { let cut = (b.len() * len + d).min(t.len()); if cut == 0 { continue; } for n in [4, len.max(4), len + 5, len * 4 + 4] { c.stream_dec(&t, &if cut == t.len() { vec![cut] } else { vec![cut, t.len()] }, &[n]); } }
                        }
                    }
                }
            });
        }

        // ---- round trips
        if w(&[15]) {
            let l = lex(o, dict);
            let known: Vec<char> = o.dec.iter().filter_map(|&x| if x != 0 { ch(x) } else { None }).collect();
            job!(1, move |c: &mut Ctx| {
                if c.o.kind == Kind::Big5 { for x in all_scalars() { if x as u32 & 0xFFF == 0 && c.stop() { return; } for b in ['\u{ca}', '\u{ea}'] { c.rt_text(&[b, x].iter().collect::<String>()); } } }
                for x in all_scalars() { if x as u32 & 0xFFF == 0 && c.stop() { return; } let s: String = [x].iter().collect(); c.rt_text(&s); let s: String = [x, x].iter().collect(); c.rt_text(&s); let s: String = ['a', x, 'b'].iter().collect(); c.rt_text(&s); }
                let a: Vec<char> = l.chars.iter().cloned().collect();
                for &x in &a { if c.stop() { return; } for &y in &a { c.rt_text(&[x, y].iter().collect::<String>()); } }
                let a = &a[..30.min(a.len())];
                for x in 0..a.len().pow(3) { if x & 0xFF == 0 && c.stop() { return; } c.rt_text(&nth(x, a.len(), 3).iter().map(|&i| a[i]).collect::<String>()); }
                let mut r = Rng::new(seed * 7919 + ei as u64 + 401);
                let ok: Vec<char> = known.iter().cloned().chain((0..128u8).map(|x| x as char)).chain(if known.is_empty() { l.chars.clone() } else { vec![] }).collect();
                for it in 0..if thorough { 200000 } else { 20000 } { if it & 0xFF == 0 && c.stop() { return; } let n = 1 + r.below(if it % 16 == 0 { 400 } else { 16 }); c.rt_text(&(0..n).map(|_| if r.below(12) == 0 { 'a' } else { r.pick(&ok) }).collect::<String>()); }
                for &len in XL { for &b in ['a', '\u{1f600}'].iter().chain(ok.last()) { if c.stop() { return; } c.rt_text(&std::iter::repeat(b).take(len).chain(['b', ok[ok.len() / 2]]).collect::<String>()); } }
                for &len in &l.lens { for &b in ['a', '\u{e9}', '\u{4e00}', '\u{1f600}', '\u{ca}'].iter().chain(ok.iter().take(3)) { if c.stop() { return; } for &sp in l.chars.iter().take(20) { c.rt_text(&std::iter::repeat(b).take(len).chain([sp]).collect::<String>()); c.rt_text(&std::iter::repeat(b).take(len / 2).chain([sp]).chain(std::iter::repeat(b).take(len - len / 2)).collect::<String>()); } } }
            });
        }
        if w(&[16]) && !matches!(o.kind, Kind::Big5 | Kind::Sjis) {
            let l = lex(o, dict);
            let toks = tokens(o, &l);
            let known = known_codes(o);
            job!(1, move |c: &mut Ctx| {
                for x in 0..=255u8 { c.rt_bytes(&[x]); }
                for x in 0..65536u32 { if x & 0xFFF == 0 && c.stop() { return; } c.rt_bytes(&[(x >> 8) as u8, x as u8]); }
                match c.o.kind {
                    Kind::Utf8 => { for x in 0..1usize << 24 { if x & 0xFFFF == 0 && c.stop() { return; } c.rt_bytes(&[(x >> 16) as u8, (x >> 8) as u8, x as u8]); } for v in 0x10000..0x110000 { if v & 0xFFFF == 0 && c.stop() { return; } let (b, n) = utf8_of(v); c.rt_bytes(&b[..n]); } }
                    Kind::Utf16(be) => { for h in 0xD800..=0xDBFFu16 { if c.stop() { return; } for w in 0xDC00..=0xDFFFu16 { c.rt_bytes(&[put16(be, h), put16(be, w)].concat()); } } }
                    Kind::Utf32(be) => { for v in 0..0x120000u32 { if v & 0xFFFF == 0 && c.stop() { return; } c.rt_bytes(&put32(be, v)); } }
                    _ => {}
                }
                for x in 0..toks.len() { if c.stop() { return; } for y in 0..toks.len() { c.rt_bytes(&[&toks[x][..], &toks[y][..]].concat()); for z in toks.iter().take(20) { c.rt_bytes(&[&toks[x][..], &toks[y][..], &z[..]].concat()); } } }
                let mut r = Rng::new(seed * 7919 + ei as u64 + 501);
                for it in 0..if thorough { 200000 } else { 20000 } { if it & 0xFF == 0 && c.stop() { return; } let t = if it & 1 == 0 && !known.is_empty() { let n = 1 + r.below(if it % 16 == 0 { 300 } else { 16 }); (0..n).flat_map(|_| known[r.below(known.len())].clone()).collect() } else { random_bytes(&mut r, &toks, &known, &l, it) }; c.rt_bytes(&t); }
                for &len in XL { for b in toks.iter().take(1).chain(known.iter().step_by((known.len() / 2).max(1))) { if c.stop() { return; } c.rt_bytes(&[&b.repeat(len)[..], &toks[0][..]].concat()); } }
                for &len in &l.lens { if c.stop() { return; } for b in known.iter().step_by((known.len() / 6).max(1)) { for sp in toks.iter().take(20) { c.rt_bytes(&[&b.repeat(len)[..], &sp[..]].concat()); c.rt_bytes(&[&b.repeat(len / 2)[..], &sp[..], &b.repeat(len - len / 2)[..]].concat()); } } }
            });
        }
    }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn sb_ok(known: &[char], x: char) -> bool { known.is_empty() || (x as u32) < 0x80 || known.contains(&x) }

/// Codes of the encoding, as byte strings.
fn known_codes(o: &Oracle) -> Vec<Vec<u8>> {
    let mut v = vec![];
    match o.kind {
        Kind::Sb => for b in 0..=255u8 { if b < 0x80 || o.dec[b as usize - 0x80] != 0 { v.push(vec![b]); } },
        Kind::Big5 | Kind::Sjis => { for b in 0..128u8 { v.push(vec![b]); } for x in 0x8000..=0xFFFFu32 { let t = [(x >> 8) as u8, x as u8]; if let DStep::Emit(2, ..) = o.dstep(&t, 0) { v.push(t.to_vec()); } } }
        _ => for &c in CHARS { if let Some(c) = ch(c) { let mut p = Plan::default(); p.enc(o, &[c], true); v.push(p.out); } },
    }
    v
}
fn random_bytes(r: &mut Rng, toks: &[Vec<u8>], known: &[Vec<u8>], l: &Lex, it: usize) -> Vec<u8> {
    let n = 1 + r.below(if it % 16 == 0 { 200 } else { 16 });
    let mode = r.below(4);
    let mut t = vec![];
    for _ in 0..n {
        match r.below(10) {
            0 if mode > 1 => t.extend_from_slice(&toks[r.below(toks.len())]),
            1 if mode > 0 => t.push(r.pick(&l.bytes)),
            2 if mode > 2 => t.push(r.next() as u8),
            3 => t.extend_from_slice(&toks[r.below(toks.len().min(9))]),
            _ => t.extend_from_slice(&known[r.below(known.len())]),
        }
    }
    if mode > 0 && r.below(4) == 0 { let k = r.below(t.len() + 1); t.truncate(k); }
    t
}
