//! Independent oracle: what the published standards say, step by step.
//! Written against the frozen mappings in /verif/spec, not against the code.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Utf8, Utf16(bool), Utf32(bool), Sb, Big5, Sjis }

pub struct Oracle {
    pub kind: Kind,
    pub dec: Vec<u32>,            // 0 = unassigned
    pub enc: Vec<u16>,            // by code point (BMP and SIP), 0 = none
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EStep { Emit(usize, [u8; 4], usize), Bad, Wait }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DStep { Emit(usize, [char; 2], usize), Bad, Inc }

fn load(path: &str) -> HashMap<u32, u32> {
    let mut m = HashMap::new();
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    for l in t.lines() {
        if l.starts_with('#') { continue; }
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() == 2 { m.insert(p[0].parse().unwrap(), u32::from_str_radix(p[1], 16).unwrap()); }
    }
    m
}

impl Oracle {
    pub fn new(spec: &str, module: &str) -> Oracle {
        let kind = match module {
            "utf8" => Kind::Utf8,
            "utf16_be" => Kind::Utf16(true),
            "utf16_le" => Kind::Utf16(false),
            "utf32_be" => Kind::Utf32(true),
            "utf32_le" => Kind::Utf32(false),
            "big5_whatwg" => Kind::Big5,
            "shiftjis_whatwg" => Kind::Sjis,
            _ => Kind::Sb,
        };
        let mut o = Oracle { kind, dec: vec![], enc: vec![] };
        match kind {
            Kind::Sb | Kind::Big5 | Kind::Sjis => {
                let m = if module == "single_byte__ascii" { HashMap::new() } else { load(&format!("{}/{}.dec", spec, module)) };
                let n = m.keys().max().map(|x| *x + 1).unwrap_or(0).max(128);
                o.dec = vec![0; n as usize];
                o.enc = vec![0; 0x30000];
                let mut ks: Vec<u32> = m.keys().cloned().collect();
                ks.sort();
                for p in ks {
                    let c = m[&p];
                    o.dec[p as usize] = c;
                    let slot = &mut o.enc[c as usize];
                    match kind {
                        Kind::Sb => if *slot == 0 { *slot = (p + 0x80) as u16 },
                        Kind::Big5 => {
                            let last = matches!(c, 0x2550 | 0x255E | 0x2561 | 0x256A | 0x5341 | 0x5345);
                            if last || *slot == 0 {
                                let t = p % 157;
                                let trail = if t < 63 { t + 64 } else { t + 98 };
                                *slot = ((p / 157 + 129) * 256 + trail) as u16;
                            }
                        }
                        _ => if !(8272..=8835).contains(&p) && *slot == 0 { *slot = sj_bytes(p) },
                    }
                }
            }
            _ => {}
        }
        o
    }
    pub fn emax(&self) -> usize {
        match self.kind { Kind::Sb => 1, Kind::Big5 | Kind::Sjis => 2, _ => 4 }
    }
    fn code(&self, c: u32) -> Option<u16> {
        match self.enc.get(c as usize) { Some(&x) if x != 0 => Some(x), _ => None }
    }
    pub fn estep(&self, s: &[char], i: usize, end: bool) -> EStep {
        let c = s[i] as u32;
        let e1 = |a: u32| EStep::Emit(1, [a as u8, 0, 0, 0], 1);
        let e2 = |a: u16| EStep::Emit(1, [(a >> 8) as u8, a as u8, 0, 0], 2);
        match self.kind {
            Kind::Utf8 => {
                let b = utf8_of(c);
                EStep::Emit(1, b.0, b.1)
            }
            Kind::Utf16(be) => {
                let u = |v: u32| if be { [(v / 256) as u8, (v % 256) as u8] } else { [(v % 256) as u8, (v / 256) as u8] };
                if c < 0x10000 { let a = u(c); EStep::Emit(1, [a[0], a[1], 0, 0], 2) }
                else { let a = u(0xD800 + (c - 0x10000) / 1024); let b = u(0xDC00 + (c - 0x10000) % 1024); EStep::Emit(1, [a[0], a[1], b[0], b[1]], 4) }
            }
            Kind::Utf32(be) => {
                let mut a = [0, (c / 65536) as u8, (c / 256 % 256) as u8, (c % 256) as u8];
                if !be { a.reverse(); }
                EStep::Emit(1, a, 4)
            }
            Kind::Sb => if c < 0x80 { e1(c) } else { match self.code(c) { Some(b) => e1(b as u32), None => EStep::Bad } },
            Kind::Big5 => {
                if c < 0x80 { return e1(c); }
                if c == 0xCA || c == 0xEA {
                    if i + 1 == s.len() { if !end { return EStep::Wait; } }
                    else {
                        let b = match (c, s[i + 1] as u32) { (0xCA, 0x304) => 0x62, (0xCA, 0x30C) => 0x64, (0xEA, 0x304) => 0xA3, (0xEA, 0x30C) => 0xA5, _ => 0 };
                        if b != 0 { return EStep::Emit(2, [0x88, b, 0, 0], 2); }
                    }
                }
                match self.code(c) { Some(b) => e2(b), None => EStep::Bad }
            }
            Kind::Sjis => {
                if c <= 0x80 { e1(c) }
                else if c == 0xA5 { e1(0x5C) }
                else if c == 0x203E { e1(0x7E) }
                else if (0xFF61..=0xFF9F).contains(&c) { e1(c - 0xFF61 + 0xA1) }
                else if (0xE000..=0xE757).contains(&c) { e2(sj_bytes(8836 + c - 0xE000)) }
                else { match self.code(if c == 0x2212 { 0xFF0D } else { c }) { Some(b) => e2(b), None => EStep::Bad } }
            }
        }
    }
    pub fn dstep(&self, b: &[u8], i: usize) -> DStep {
        let l = b.len() - i;
        let one = |n: usize, c: u32| DStep::Emit(n, [char::from_u32(c).unwrap(), '\0'], 1);
        let b0 = b[i] as u32;
        match self.kind {
            Kind::Utf8 => {
                if b0 < 0x80 { return one(1, b0); }
                if !(0xC2..=0xF4).contains(&b0) { return DStep::Bad; }
                let n = if b0 < 0xE0 { 2 } else if b0 < 0xF0 { 3 } else { 4 };
                let mut v = b0 & (0x7F >> n);
                for j in 1..n {
                    if j >= l { return DStep::Inc; }
                    let x = b[i + j] as u32;
                    let (lo, hi) = if j > 1 { (0x80, 0xBF) } else { match b0 { 0xE0 => (0xA0, 0xBF), 0xED => (0x80, 0x9F), 0xF0 => (0x90, 0xBF), 0xF4 => (0x80, 0x8F), _ => (0x80, 0xBF) } };
                    if x < lo || x > hi { return DStep::Bad; }
                    v = v * 64 + (x - 0x80);
                }
                one(n, v)
            }
            Kind::Utf16(be) => {
                let u = |k: usize| if be { b[k] as u32 * 256 + b[k + 1] as u32 } else { b[k + 1] as u32 * 256 + b[k] as u32 };
                if l < 2 { return DStep::Inc; }
                let h = u(i);
                match h {
                    0xD800..=0xDBFF => {
                        if l < 4 { return DStep::Inc; }
                        let w = u(i + 2);
                        if (0xDC00..=0xDFFF).contains(&w) { one(4, 0x10000 + (h - 0xD800) * 1024 + (w - 0xDC00)) } else { DStep::Bad }
                    }
                    0xDC00..=0xDFFF => DStep::Bad,
                    _ => one(2, h),
                }
            }
            Kind::Utf32(be) => {
                if l < 4 { return DStep::Inc; }
                let mut v = 0u32;
                for j in 0..4 { v = v * 256 + b[i + if be { j } else { 3 - j }] as u32; }
                if v >= 0x110000 || (0xD800..0xE000).contains(&v) { DStep::Bad } else { one(4, v) }
            }
            Kind::Sb => {
                if b0 < 0x80 { one(1, b0) } else { match self.dec[b0 as usize - 0x80] { 0 => DStep::Bad, c => one(1, c) } }
            }
            Kind::Big5 => {
                if b0 < 0x80 { return one(1, b0); }
                if b0 == 0x80 || b0 == 0xFF { return DStep::Bad; }
                if l < 2 { return DStep::Inc; }
                let b1 = b[i + 1] as u32;
                let t = match b1 { 0x40..=0x7E => b1 - 0x40, 0xA1..=0xFE => b1 - 0xA1 + 63, _ => return DStep::Bad };
                match b0 * 256 + b1 {
                    0x8862 => return DStep::Emit(2, ['\u{CA}', '\u{304}'], 2),
                    0x8864 => return DStep::Emit(2, ['\u{CA}', '\u{30C}'], 2),
                    0x88A3 => return DStep::Emit(2, ['\u{EA}', '\u{304}'], 2),
                    0x88A5 => return DStep::Emit(2, ['\u{EA}', '\u{30C}'], 2),
                    _ => {}
                }
                match self.dec.get(((b0 - 0x81) * 157 + t) as usize) { Some(&c) if c != 0 => one(2, c), _ => DStep::Bad }
            }
            Kind::Sjis => {
                if b0 <= 0x80 { return one(1, b0); }
                if (0xA1..=0xDF).contains(&b0) { return one(1, 0xFF61 + b0 - 0xA1); }
                if b0 == 0xA0 || b0 > 0xFC { return DStep::Bad; }
                if l < 2 { return DStep::Inc; }
                let b1 = b[i + 1] as u32;
                let t = match b1 { 0x40..=0x7E => b1 - 0x40, 0x80..=0xFC => b1 - 0x41, _ => return DStep::Bad };
                let p = (if b0 < 0xA0 { b0 - 0x81 } else { b0 - 0xC1 }) * 188 + t;
                if (8836..=10715).contains(&p) { return one(2, 0xE000 + p - 8836); }
                match self.dec.get(p as usize) { Some(&c) if c != 0 => one(2, c), _ => DStep::Bad }
            }
        }
    }
    /// May an error that starts at `lo` extend to `hi`?
    pub fn extent(&self, b: &[u8], lo: usize, hi: usize) -> bool {
        if !(lo < hi && hi <= b.len()) { return false; }
        let inc = self.dstep(b, lo) == DStep::Inc;
        let next_ascii = lo + 1 >= b.len() || b[lo + 1] < 0x80;
        match self.kind {
            Kind::Utf8 => b[lo + 1..hi].iter().all(|&x| !(x < 0x80 || (0xC2..=0xF4).contains(&x))),
            Kind::Utf16(_) => hi == if inc { b.len() } else { lo + 2 },
            Kind::Utf32(_) => hi == if inc { b.len() } else { lo + 4 },
            Kind::Sb => hi == lo + 1,
            Kind::Big5 => hi == lo + if b[lo] == 0x80 || b[lo] == 0xFF || next_ascii { 1 } else { 2 },
            Kind::Sjis => hi == lo + if b[lo] == 0xA0 || b[lo] > 0xFC || next_ascii { 1 } else { 2 },
        }
    }
}

fn sj_bytes(p: u32) -> u16 {
    let lead = p / 188;
    let lead = if lead < 31 { lead + 129 } else { lead + 193 };
    let t = p % 188;
    let trail = if t < 63 { t + 64 } else { t + 65 };
    (lead * 256 + trail) as u16
}

pub fn utf8_of(c: u32) -> ([u8; 4], usize) {
    let t = |s: u32| (0x80 + (c / s) % 64) as u8;
    if c < 0x80 { ([c as u8, 0, 0, 0], 1) }
    else if c < 0x800 { ([(0xC0 + c / 64) as u8, t(1), 0, 0], 2) }
    else if c < 0x10000 { ([(0xE0 + c / 4096) as u8, t(64), t(1), 0], 3) }
    else { ([(0xF0 + c / 262144) as u8, t(4096), t(64), t(1)], 4) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop { Done, Bad, Open }

/// What the greedy encoder / decoder does with unlimited room.
#[derive(Default)]
pub struct Plan {
    pub out: Vec<u8>,
    pub marks: Vec<(usize, usize, usize)>, // index, input offset, output offset
    pub stop: Option<Stop>,
}

impl Plan {
    pub fn enc(&mut self, o: &Oracle, s: &[char], end: bool) {
        self.out.clear();
        self.marks.clear();
        let (mut i, mut off) = (0, 0);
        self.marks.push((0, 0, 0));
        self.stop = Some(loop {
            if i == s.len() { break Stop::Done; }
            match o.estep(s, i, end) {
                EStep::Emit(n, b, l) => {
                    self.out.extend_from_slice(&b[..l]);
                    for c in &s[i..i + n] { off += c.len_utf8(); }
                    i += n;
                    self.marks.push((i, off, self.out.len()));
                }
                EStep::Bad => break Stop::Bad,
                EStep::Wait => break Stop::Open,
            }
        });
    }
    pub fn dec(&mut self, o: &Oracle, b: &[u8]) {
        self.out.clear();
        self.marks.clear();
        let mut i = 0;
        self.marks.push((0, 0, 0));
        self.stop = Some(loop {
            if i == b.len() { break Stop::Done; }
            match o.dstep(b, i) {
                DStep::Emit(n, t, l) => {
                    for c in &t[..l] { let (x, k) = utf8_of(*c as u32); self.out.extend_from_slice(&x[..k]); }
                    i += n;
                    self.marks.push((i, i, self.out.len()));
                }
                DStep::Bad => break Stop::Bad,
                DStep::Inc => break Stop::Open,
            }
        });
    }
    pub fn at(&self, off: usize) -> Option<usize> {
        self.marks.binary_search_by_key(&off, |m| m.1).ok()
    }
}
