//! Runs the real functions and compares what they do with the oracle.
//!
//! engine run SPEC OUT TARGETS TIER SECONDS DICT   explore; writes OUT (JSON lines)
//! engine replay SPEC FILE                         re-run one recorded case
mod api;
mod oracle;
mod gen;

use api::*;
use oracle::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NP: usize = 18;

/// One case, enough to replay it.
#[derive(Clone, Default, Debug)]
pub struct Case {
    pub op: String,      // enc dec senc sdec rt_text rt_bytes
    pub encoding: String,
    pub input: Vec<u8>,
    pub n: usize,
    pub end: bool,
    pub cuts: Vec<usize>, // chunk ends
    pub bufs: Vec<usize>, // buffer lengths, cyclically
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o + "\""
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
impl Case {
    pub fn json(&self) -> String {
        format!("{{\"op\":{},\"encoding\":{},\"input\":\"{}\",\"n\":{},\"end\":{},\"cuts\":{:?},\"bufs\":{:?}}}",
            js(&self.op), js(&self.encoding), hex(&self.input), self.n, self.end, self.cuts, self.bufs)
    }
}

pub struct Found { pub case: Case, pub msg: String }

pub struct Shared {
    pub found: Mutex<Vec<Option<Found>>>,
    pub have: [AtomicBool; NP],
    pub want: Vec<usize>,
    pub calls: AtomicU64,
    pub panics: AtomicU64,
    pub deadline: Instant,
}
impl Shared {
    pub fn report(&self, p: usize, case: impl FnOnce() -> Case, msg: impl FnOnce() -> String) {
        if self.have[p].load(Relaxed) { return; }
        let mut f = self.found.lock().unwrap();
        if f[p].is_none() { f[p] = Some(Found { case: case(), msg: msg() }); self.have[p].store(true, Relaxed); }
    }
    /// Nothing more to look for?
    pub fn done(&self) -> bool {
        self.want.iter().all(|&p| self.have[p].load(Relaxed)) || Instant::now() > self.deadline
    }
}

/// What a thread is running now; read by the watchdog and the signal handler.
pub struct Cur { pub beat: AtomicU32, pub op: AtomicU32, pub enc: AtomicUsize, pub ptr: AtomicUsize, pub len: AtomicUsize, pub n: AtomicUsize, pub end: AtomicBool }
const CUR0: Cur = Cur { beat: AtomicU32::new(0), op: AtomicU32::new(0), enc: AtomicUsize::new(0), ptr: AtomicUsize::new(0), len: AtomicUsize::new(0), n: AtomicUsize::new(0), end: AtomicBool::new(false) };
pub const THREADS: usize = 8;
pub static CURS: [Cur; THREADS + 1] = [CUR0; THREADS + 1];
thread_local! { pub static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(THREADS) }; }
static OUTFD: AtomicU32 = AtomicU32::new(u32::MAX);

extern "C" {
    fn sigaction(n: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
#[repr(C)]
struct SigAction { f: usize, mask: [u64; 16], flags: i32, restorer: usize }

fn fatal_line(k: usize, what: &str, buf: &mut [u8]) -> usize {
    let c = &CURS[k];
    let mut w = 0;
    let mut put = |s: &[u8]| { for &b in s { if w < buf.len() { buf[w] = b; w += 1; } } };
    fn num(mut v: usize, t: &mut [u8; 20]) -> &[u8] { let mut i = 20; loop { i -= 1; t[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } &t[i..] }
    let mut t = [0u8; 20];
    put(b"{\"fatal\":\""); put(what.as_bytes());
    put(b"\",\"case\":{\"op\":\""); put(if c.op.load(SeqCst) == 1 { b"enc" } else { b"dec" });
    put(b"\",\"encoding_index\":"); put(num(c.enc.load(SeqCst), &mut t));
    put(b",\"input\":\"");
    let p = c.ptr.load(SeqCst) as *const u8;
    for i in 0..c.len.load(SeqCst).min(400000) { let b = unsafe { *p.add(i) }; put(&[b"0123456789abcdef"[(b >> 4) as usize], b"0123456789abcdef"[(b & 15) as usize]]); }
    put(b"\",\"n\":"); put(num(c.n.load(SeqCst), &mut t));
    put(b",\"end\":"); put(if c.end.load(SeqCst) { b"true" } else { b"false" });
    put(b",\"cuts\":[],\"bufs\":[]}}\n");
    w
}
static mut SIGBUF: [u8; 1000000] = [0; 1000000];
extern "C" fn on_signal(_s: i32) {
    let k = ME.with(|m| m.get());
    let b = unsafe { &mut *std::ptr::addr_of_mut!(SIGBUF) };
    let w = fatal_line(k, "the process was killed by a signal (abort, memory fault) inside the call", b);
    unsafe { write(OUTFD.load(SeqCst) as i32, b.as_ptr() as *const core::ffi::c_void, w); _exit(3) }
}

pub struct Ctx<'s> {
    pub sh: &'s Shared,
    pub api: &'s Api,
    pub ei: usize,
    pub o: &'s Oracle,
    pub group: usize, // C11..C14
    pub buf: Vec<u8>,
    pub plan: Plan,
    pub again: bool,
    pub me: usize,
    pub calls: u64,
}

pub fn group_of(k: Kind) -> usize { match k { Kind::Sb => 12, Kind::Big5 => 13, Kind::Sjis => 14, _ => 11 } }

enum RawE { Ok { front: bool, bytes_len: usize, used: usize }, Err(char, (usize, usize), usize), Panic(String) }
enum RawD { Ok { front: bool, len: usize, used: usize }, Err(bool, (usize, usize), usize), Panic(String) }

fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

impl<'s> Ctx<'s> {
    pub fn stop(&self) -> bool { self.sh.done() }
    fn begin(&mut self, op: u32, p: &[u8], n: usize, end: bool) {
        let c = &CURS[self.me];
        c.op.store(op, Relaxed);
        c.enc.store(self.ei, Relaxed);
        c.ptr.store(p.as_ptr() as usize, Relaxed);
        c.len.store(p.len(), Relaxed);
        c.n.store(n, Relaxed);
        c.end.store(end, Relaxed);
        c.beat.store(c.beat.load(Relaxed).wrapping_add(1), Release);
        self.calls += 1;
        if self.buf.len() < n { self.buf.resize(n, 0); }
        // Bytes that would be noticed if they were taken for output.
        for b in self.buf[..n.min(96)].iter_mut() { *b = 0xF8; }
    }
    fn raw_enc(&mut self, s: &str, n: usize, end: bool) -> RawE {
        self.begin(1, s.as_bytes(), n, end);
        let (f, p) = (self.api.enc, self.buf.as_ptr());
        let out = &mut self.buf[..n];
        let r = catch_unwind(AssertUnwindSafe(|| match f(s, out, end) {
            E::Ok(b, used) => RawE::Ok { front: b.as_ptr() == p || b.is_empty(), bytes_len: b.len(), used },
            E::Err(c, r, w) => RawE::Err(c, r, w),
        }));
        r.unwrap_or_else(|e| RawE::Panic(pmsg(e)))
    }
    fn raw_dec(&mut self, s: &[u8], n: usize, end: bool) -> RawD {
        self.begin(2, s, n, end);
        let (f, p) = (self.api.dec, self.buf.as_ptr());
        let out = &mut self.buf[..n];
        let r = catch_unwind(AssertUnwindSafe(|| match f(s, out, end) {
            D::Ok(b, used) => RawD::Ok { front: b.as_ptr() == p || b.is_empty(), len: b.len(), used },
            D::Err(c, r, w) => RawD::Err(c, r, w),
        }));
        r.unwrap_or_else(|e| RawD::Panic(pmsg(e)))
    }
    fn case(&self, op: &str, input: &[u8], n: usize, end: bool) -> Case {
        Case { op: op.into(), encoding: self.api.name.into(), input: input.to_vec(), n, end, cuts: vec![], bufs: vec![] }
    }

    /// One encode call; the plan for (s, end) must be in self.plan.
    fn enc_call(&mut self, cs: &[char], s: &str, n: usize, end: bool) {
        let r = self.raw_enc(s, n, end);
        let (sh, o) = (self.sh, self.o);
        let rep = |p: usize, m: &dyn Fn() -> String| sh.report(p, || self.case("enc", s.as_bytes(), n, end), m);
        let pl = &self.plan;
        let big = n >= pl.out.len() + o.emax() && pl.stop != Some(Stop::Open);
        match r {
            RawE::Panic(m) => {
                sh.panics.fetch_add(1, Relaxed);
                rep(1, &|| format!("panics: {}", m));
                if big { rep(self.group, &|| format!("panics: {}", m)); }
            }
            RawE::Ok { front, bytes_len, used } => {
                if bytes_len > n || used > s.len() { rep(1, &|| format!("reports {} bytes written of {}, {} consumed of {}", bytes_len, n, used, s.len())); }
                let got = if front { &self.buf[..bytes_len.min(n)] } else { &[][..] };
                let m = pl.at(used);
                let good = match m { Some(k) => front && got == &pl.out[..pl.marks[k].2], None => false };
                if !good { rep(3, &|| format!("returns {} and consumed {}; the encoding of the text begins {}", hex(got), used, hex(&pl.out[..pl.out.len().min(64)]))); }
                let room = n as isize - bytes_len as isize;
                // The character at which it stopped.
                let k = if used > s.len() { None } else { m.map(|k| pl.marks[k].0).or_else(|| { let mut a = 0; for (i, c) in cs.iter().enumerate() { if a == used { return Some(i); } a += c.len_utf8(); } if a == used { Some(cs.len()) } else { None } }) };
                if k.is_none() && used < s.len() && end && room >= o.emax() as isize { rep(4, &|| format!("consumes {} of {}, which is inside a character, with room {}", used, s.len(), room)); }
                if let Some(k) = k {
                    if k < cs.len() {
                        let (fits, why) = match o.estep(cs, k, end) { EStep::Emit(_, _, l) => (room >= l as isize, "its code fits"), EStep::Bad => (room >= o.emax() as isize, "it has no code and there is room"), EStep::Wait => (false, "") };
                        if fits { rep(4, &|| format!("stops before character {} with room {}, although {}", k, room, why)); }
                    }
                }
                if big && !(pl.stop == Some(Stop::Done) && good && used == s.len()) { rep(self.group, &|| format!("returns {} and consumed {} of {}; the standard says {} ({:?})", hex(got), used, s.len(), hex(&pl.out[..pl.out.len().min(64)]), pl.stop.unwrap())); }
                // Past a character that has no code, or wrong: what does a later error report?
                let past = pl.stop == Some(Stop::Bad) && used > pl.marks.last().unwrap().1;
                if (past || !good && used > 0) && !self.again && used <= s.len() && s.is_char_boundary(used) && sh.want.contains(&5) && !sh.have[5].load(Relaxed) {
                    let x = ['\u{10FFFD}', '\u{E000}', '\u{3FFFE}'].iter().cloned().find(|&x| matches!(o.estep(&[x], 0, true), EStep::Bad));
                    if let Some(x) = x {
                        let t: Vec<char> = s[..used].chars().chain([x]).collect();
                        let ts: String = t.iter().collect();
                        let old = std::mem::take(&mut self.plan);
                        self.again = true;
                        let mut p2 = Plan::default();
                        p2.enc(o, &t, true);
                        self.plan = p2;
                        self.enc_call(&t, &ts, ts.len() * 2 + 8, true);
                        self.again = false;
                        self.plan = old;
                    }
                }
            }
            RawE::Err(c, (lo, hi), w) => {
                if w > n || lo > hi || hi > s.len() { rep(1, &|| format!("error range {}..{}, {} bytes written", lo, hi, w)); }
                let (i, off, ol) = *pl.marks.last().unwrap();
                let good = pl.stop == Some(Stop::Bad) && c == cs[i] && lo == off && hi == off + cs[i].len_utf8() && w == ol && w <= n && self.buf[..w] == pl.out[..];
                if !good { rep(5, &|| format!("error for U+{:04X} at {}..{}, {} bytes written ({}); expected: {:?} at {} after {}", c as u32, lo, hi, w, hex(&self.buf[..w.min(n).min(64)]), pl.stop.unwrap(), off, hex(&pl.out[..pl.out.len().min(64)]))); }
                if big && !good { rep(self.group, &|| format!("error for U+{:04X} at {}..{}; the standard says {:?} at {}", c as u32, lo, hi, pl.stop.unwrap(), off)); }
            }
        }
    }

    fn dec_call(&mut self, b: &[u8], n: usize, end: bool) {
        let r = self.raw_dec(b, n, end);
        let (sh, o) = (self.sh, self.o);
        let rep = |p: usize, m: &dyn Fn() -> String| sh.report(p, || self.case("dec", b, n, end), m);
        let pl = &self.plan;
        let (sp, _, ol) = *pl.marks.last().unwrap();
        let stop = pl.stop.unwrap();
        let big = n >= pl.out.len() + 4 && (end || stop != Stop::Open);
        match r {
            RawD::Panic(m) => {
                sh.panics.fetch_add(1, Relaxed);
                rep(1, &|| format!("panics: {}", m));
                if big { rep(self.group, &|| format!("panics: {}", m)); }
            }
            RawD::Ok { front, len, used } => {
                if len > n || used > b.len() { rep(1, &|| format!("reports {} bytes of text in a buffer of {}, {} consumed of {}", len, n, used, b.len())); }
                let got = if front { &self.buf[..len.min(n)] } else { &[][..] };
                if !front || len > n || std::str::from_utf8(got).is_err() { rep(2, &|| format!("the returned text is {} ({})", hex(got), if front { "ill-formed" } else { "not the front of the buffer" })); }
                let m = pl.at(used);
                let good = match m { Some(k) => front && got == &pl.out[..pl.marks[k].2], None => false };
                if !good { rep(6, &|| format!("returns the text {} and consumed {}; the bytes mean {}", hex(got), used, hex(&pl.out[..pl.out.len().min(64)]))); }
                let room = n as isize - len as isize;
                if m.is_none() && used < b.len() && end && room >= 4 { rep(7, &|| format!("consumes {} of {}, which is inside a character, with room {}", used, b.len(), room)); }
                if let Some(k) = m {
                    let ok = used == b.len() || room == 0 || match pl.marks.get(k + 1) { Some(x) => room < (x.2 - pl.marks[k].2) as isize, None => stop == Stop::Open && !end };
                    if !ok { rep(7, &|| format!("stops at byte {} with room {} ({:?}, end {})", used, room, stop, end)); }
                }
                if big && !(stop == Stop::Done && good && used == b.len()) { rep(self.group, &|| format!("returns the text {} and consumed {} of {}; the standard says {} ({:?})", hex(got), used, b.len(), hex(&pl.out[..pl.out.len().min(64)]), stop)); }
                // Past something malformed, or wrong: what does a later error report?
                if (stop == Stop::Bad && used > sp || !good && used > 0) && used <= b.len() && !self.again && sh.want.contains(&8) && !sh.have[8].load(Relaxed) {
                    let x: Option<Vec<u8>> = match o.kind {
                        Kind::Utf16(be) => Some(if be { vec![0xDC, 0] } else { vec![0, 0xDC] }),
                        Kind::Sb => o.dec.iter().position(|&v| v == 0).map(|i| vec![i as u8 + 0x80]),
                        _ => Some(vec![0xFF; 4]),
                    };
                    if let Some(x) = x {
                        let t = [&b[..used], &x[..]].concat();
                        let old = std::mem::take(&mut self.plan);
                        self.again = true;
                        let mut p2 = Plan::default();
                        p2.dec(o, &t);
                        self.plan = p2;
                        self.dec_call(&t, t.len() * 4 + 8, true);
                        self.again = false;
                        self.plan = old;
                    }
                }
            }
            RawD::Err(inv, (lo, hi), w) => {
                if w > n || lo > hi || hi > b.len() { rep(1, &|| format!("error range {}..{}, {} bytes written", lo, hi, w)); }
                if w > n || std::str::from_utf8(&self.buf[..w.min(n)]).is_err() { rep(2, &|| format!("reports {} bytes written; the buffer holds {}", w, hex(&self.buf[..w.min(n).min(64)]))); }
                let good = inv && lo == sp && (stop == Stop::Bad || stop == Stop::Open && end) && w == ol && w <= n && self.buf[..w] == pl.out[..];
                if !good { rep(8, &|| format!("error at {}..{}, {} bytes written ({}); expected: {:?} at {} after {}", lo, hi, w, hex(&self.buf[..w.min(n).min(64)]), stop, sp, hex(&pl.out[..pl.out.len().min(64)]))); }
                if lo >= b.len() || lo < sp || !o.extent(b, lo, hi) { rep(17, &|| format!("error range {}..{} of {} bytes", lo, hi, b.len())); }
                if big && !good { rep(self.group, &|| format!("error at {}..{}; the standard says {:?} at {}", lo, hi, stop, sp)); }
            }
        }
    }

    /// All the given buffer lengths, both flag values.
    pub fn enc_text(&mut self, cs: &[char], s: &str, ns: Ns) {
        let mut p = std::mem::take(&mut self.plan);
        for end in if self.api.eflag { &[true, false][..] } else { &[true][..] } {
            p.enc(self.o, cs, *end);
            self.plan = p;
            for n in ns.over(self.plan.out.len()) { self.enc_call(cs, s, n, *end); }
            p = std::mem::take(&mut self.plan);
        }
        self.plan = p;
    }
    pub fn dec_bytes(&mut self, b: &[u8], ns: Ns) {
        let mut p = std::mem::take(&mut self.plan);
        p.dec(self.o, b);
        self.plan = p;
        for end in if self.api.dflag { &[true, false][..] } else { &[true][..] } {
            for n in ns.over(self.plan.out.len()) { self.dec_call(b, n, *end); }
        }
    }

    // ---- streaming --------------------------------------------------------

    /// One call with everything: the output and how it ended.
    fn one_enc(&mut self, s: &str) -> (Vec<u8>, Result<(), (char, usize)>, Option<String>) {
        let n = s.len() * 4 + 16;
        match self.raw_enc(s, n, true) {
            RawE::Ok { bytes_len, used, .. } => (self.buf[..bytes_len.min(n)].to_vec(), Ok(()), if used == s.len() { None } else { Some(format!("one call consumes {} of {}", used, s.len())) }),
            RawE::Err(c, (lo, _), w) => (self.buf[..w.min(n)].to_vec(), Err((c, lo)), None),
            RawE::Panic(m) => (vec![], Ok(()), Some(format!("panics: {}", m))),
        }
    }
    fn one_dec(&mut self, b: &[u8]) -> (Vec<u8>, Result<(), usize>, Option<String>) {
        let n = b.len() * 4 + 16;
        match self.raw_dec(b, n, true) {
            RawD::Ok { len, used, .. } => (self.buf[..len.min(n)].to_vec(), Ok(()), if used == b.len() { None } else { Some(format!("one call consumes {} of {}", used, b.len())) }),
            RawD::Err(_, (lo, _), w) => (self.buf[..w.min(n)].to_vec(), Err(lo), None),
            RawD::Panic(m) => (vec![], Ok(()), Some(format!("panics: {}", m))),
        }
    }
    pub fn stream_enc(&mut self, s: &str, cuts: &[usize], bufs: &[usize]) {
        let (want, wend, bad) = self.one_enc(s);
        let mut out = vec![];
        let (mut from, mut k, mut turn) = (0, 0, 0);
        let mut idle = 0;
        let msg = loop {
            if let Some(b) = &bad { break Some(b.clone()); }
            let to = cuts.get(k).cloned().unwrap_or(s.len());
            let end = to == s.len();
            let n = bufs[turn % bufs.len()];
            turn += 1;
            match self.raw_enc(&s[from..to], n, end) {
                RawE::Panic(m) => break Some(format!("panics: {}", m)),
                RawE::Err(c, (lo, _), w) => {
                    out.extend_from_slice(&self.buf[..w.min(n)]);
                    break if wend == Err((c, from + lo)) && out == want { None } else { Some(format!("piecewise: {} then error for U+{:04X} at {}; one call: {} {:?}", hex(&out), c as u32, from + lo, hex(&want), wend)) };
                }
                RawE::Ok { bytes_len, used, .. } => {
                    out.extend_from_slice(&self.buf[..bytes_len.min(n)]);
                    if from + used > to || !s.is_char_boundary(from + used) { break Some(format!("consumed {} of {}", used, to - from)); }
                    from += used;
                    if from == s.len() && end {
                        break if wend.is_ok() && out == want { None } else { Some(format!("piecewise: {}; one call: {} {:?}", hex(&out), hex(&want), wend)) };
                    }
                    if !end { if used == 0 || from == to { k += 1; } else { idle = 0; } }
                    else if used == 0 { idle += 1; if idle > bufs.len() { break Some(format!("no progress at {} with a buffer of {}", from, n)); } }
                    else { idle = 0; }
                }
            }
        };
        if let Some(m) = msg {
            let (sh, c) = (self.sh, Case { cuts: cuts.to_vec(), bufs: bufs.to_vec(), ..self.case("senc", s.as_bytes(), 0, true) });
            sh.report(9, || c, || m);
        }
    }
    pub fn stream_dec(&mut self, b: &[u8], cuts: &[usize], bufs: &[usize]) {
        let (want, wend, bad) = self.one_dec(b);
        let mut out = vec![];
        let (mut from, mut k, mut turn) = (0, 0, 0);
        let mut idle = 0;
        let msg = loop {
            if let Some(x) = &bad { break Some(x.clone()); }
            let to = cuts.get(k).cloned().unwrap_or(b.len());
            let end = to == b.len();
            let n = bufs[turn % bufs.len()];
            turn += 1;
            match self.raw_dec(&b[from..to], n, end) {
                RawD::Panic(m) => break Some(format!("panics: {}", m)),
                RawD::Err(_, (lo, _), w) => {
                    out.extend_from_slice(&self.buf[..w.min(n)]);
                    break if wend == Err(from + lo) && out == want { None } else { Some(format!("piecewise: {} then error at {}; one call: {} {:?}", hex(&out), from + lo, hex(&want), wend)) };
                }
                RawD::Ok { len, used, .. } => {
                    out.extend_from_slice(&self.buf[..len.min(n)]);
                    if from + used > to { break Some(format!("consumed {} of {}", used, to - from)); }
                    from += used;
                    if from == b.len() && end {
                        break if wend.is_ok() && out == want { None } else { Some(format!("piecewise: {}; one call: {} {:?}", hex(&out), hex(&want), wend)) };
                    }
                    if !end { if used == 0 || from == to { k += 1; } else { idle = 0; } }
                    else if used == 0 { idle += 1; if idle > bufs.len() { break Some(format!("no progress at {} with a buffer of {}", from, n)); } }
                    else { idle = 0; }
                }
            }
        };
        if let Some(m) = msg {
            let (sh, c) = (self.sh, Case { cuts: cuts.to_vec(), bufs: bufs.to_vec(), ..self.case("sdec", b, 0, true) });
            sh.report(10, || c, || m);
        }
    }

    // ---- round trips ------------------------------------------------------

    pub fn rt_text(&mut self, s: &str) {
        if self.o.kind == Kind::Sjis && s.chars().any(|c| matches!(c as u32, 0xA5 | 0x203E | 0x2212)) { return; }
        let n = s.len() * 4 + 16;
        let m = match self.raw_enc(s, n, true) {
            RawE::Panic(m) => Some(format!("encoding panics: {}", m)),
            RawE::Err(..) => None,
            RawE::Ok { bytes_len, used, .. } => {
                if used != s.len() { return; }
                let b = self.buf[..bytes_len.min(n)].to_vec();
                let k = b.len() * 4 + 16;
                match self.raw_dec(&b, k, true) {
                    RawD::Panic(m) => Some(format!("encodes to {}; decoding that panics: {}", hex(&b), m)),
                    RawD::Err(_, (lo, hi), _) => Some(format!("encodes to {}; decoding that gives an error at {}..{}", hex(&b), lo, hi)),
                    RawD::Ok { len, used, .. } => if used == b.len() && &self.buf[..len.min(k)] == s.as_bytes() { None } else { Some(format!("encodes to {}; that decodes to {} ({} of {} consumed)", hex(&b), hex(&self.buf[..len.min(k)]), used, b.len())) },
                }
            }
        };
        if let Some(m) = m { self.sh.report(15, || self.case("rt_text", s.as_bytes(), 0, true), || m); }
    }
    pub fn rt_bytes(&mut self, b: &[u8]) {
        if matches!(self.o.kind, Kind::Sjis | Kind::Big5) { return; }
        let n = b.len() * 4 + 16;
        let m = match self.raw_dec(b, n, true) {
            RawD::Panic(m) => Some(format!("decoding panics: {}", m)),
            RawD::Err(..) => None,
            RawD::Ok { len, used, .. } => {
                if used != b.len() { return; }
                let t = self.buf[..len.min(n)].to_vec();
                match std::str::from_utf8(&t) {
                    Err(_) => Some(format!("decodes to ill-formed {}", hex(&t))),
                    Ok(s) => {
                        let k = s.len() * 4 + 16;
                        match self.raw_enc(s, k, true) {
                            RawE::Panic(m) => Some(format!("decodes to {}; encoding that panics: {}", hex(&t), m)),
                            RawE::Err(c, ..) => Some(format!("decodes to {}; encoding that fails on U+{:04X}", hex(&t), c as u32)),
                            RawE::Ok { bytes_len, used, .. } => if used == s.len() && &self.buf[..bytes_len.min(k)] == b { None } else { Some(format!("decodes to {}; that encodes to {} ({} of {} consumed)", hex(&t), hex(&self.buf[..bytes_len.min(k)]), used, s.len())) },
                        }
                    }
                }
            }
        };
        if let Some(m) = m { self.sh.report(16, || self.case("rt_bytes", b, 0, true), || m); }
    }
}

/// Which buffer lengths to try, given the length of the whole output.
#[derive(Clone, Copy)]
pub enum Ns { All(usize), Near, Big, Upto(usize), Some4 }
impl Ns {
    fn over(self, len: usize) -> Vec<usize> {
        match self {
            Ns::All(max) => (0..=(len + 5).min(max)).chain([len + 9]).collect(),
            Ns::Near => { let mut v: Vec<usize> = (len.saturating_sub(6)..=len + 5).collect(); v.extend([0, 1, len / 2, len / 2 + 1, len * 3 / 4]); v.sort(); v.dedup(); v }
            Ns::Big => vec![len + 8],
            Ns::Some4 => vec![len / 2 + 1, len.saturating_sub(1), len, len + 8],
            Ns::Upto(m) => (0..=m).collect(),
        }
    }
}

fn run_case(ctx: &mut Ctx, c: &Case) {
    match c.op.as_str() {
        "enc" => {
            let s = String::from_utf8(c.input.clone()).unwrap();
            let cs: Vec<char> = s.chars().collect();
            let mut p = Plan::default();
            p.enc(ctx.o, &cs, c.end);
            ctx.plan = p;
            ctx.enc_call(&cs, &s, c.n, c.end);
        }
        "dec" => {
            let mut p = Plan::default();
            p.dec(ctx.o, &c.input);
            ctx.plan = p;
            ctx.dec_call(&c.input, c.n, c.end);
        }
        "senc" => ctx.stream_enc(std::str::from_utf8(&c.input).unwrap(), &c.cuts, &c.bufs),
        "sdec" => ctx.stream_dec(&c.input, &c.cuts, &c.bufs),
        "rt_text" => ctx.rt_text(std::str::from_utf8(&c.input).unwrap()),
        "rt_bytes" => ctx.rt_bytes(&c.input),
        x => panic!("op {}", x),
    }
}

fn field<'a>(t: &'a str, k: &str) -> &'a str {
    let k = format!("\"{}\":", k);
    let i = t.find(&k).map(|i| i + k.len()).unwrap_or_else(|| panic!("no {}", k));
    let t = t[i..].trim_start();
    if let Some(r) = t.strip_prefix('"') { &r[..r.find('"').unwrap()] }
    else if t.starts_with('[') { &t[1..t.find(']').unwrap()] }
    else { t[..t.find([',', '}']).unwrap()].trim() }
}
fn list(t: &str) -> Vec<usize> { t.split(',').filter_map(|x| x.trim().parse().ok()).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let apis = api::all();
    let spec = &a[2];
    let oracles: Vec<Oracle> = apis.iter().map(|x| Oracle::new(spec, x.name)).collect();
    let mk = |want: Vec<usize>, secs: u64| Shared {
        found: Mutex::new((0..NP).map(|_| None).collect()),
        have: [const { AtomicBool::new(false) }; NP],
        want,
        calls: AtomicU64::new(0),
        panics: AtomicU64::new(0),
        deadline: Instant::now() + Duration::from_secs(secs),
    };
    let outpath = if a[1] == "run" { a[3].clone() } else { "/dev/stdout".to_string() };
    let out = std::fs::OpenOptions::new().create(true).write(true).truncate(a[1] == "run").open(&outpath).expect("out");
    use std::os::fd::AsRawFd;
    OUTFD.store(out.as_raw_fd() as u32, SeqCst);
    for s in [4, 5, 6, 7, 8, 11] {
        let sa = SigAction { f: on_signal as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(s, &sa, std::ptr::null_mut()); }
    }
    // The watchdog: a call that does not return is a finding.
    let limit = Duration::from_secs(20);
    std::thread::spawn(move || {
        let mut last = vec![(0u32, Instant::now()); THREADS + 1];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for k in 0..=THREADS {
                let b = CURS[k].beat.load(Acquire);
                if b != last[k].0 { last[k] = (b, Instant::now()); }
                else if b != 0 && CURS[k].op.load(SeqCst) != 0 && last[k].1.elapsed() > limit {
                    let mut buf = vec![0; 1000000];
                    let w = fatal_line(k, "the call does not return (20 s)", &mut buf);
                    unsafe { write(OUTFD.load(SeqCst) as i32, buf.as_ptr() as *const core::ffi::c_void, w); _exit(3) }
                }
            }
        }
    });
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[3]).unwrap();
        let h = field(&t, "input");
        let enc = if t.contains("\"encoding\":") { field(&t, "encoding").to_string() } else { apis[field(&t, "encoding_index").parse::<usize>().unwrap()].name.to_string() };
        let c = Case {
            op: field(&t, "op").into(), encoding: enc,
            input: (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
            n: field(&t, "n").parse().unwrap(), end: field(&t, "end") == "true",
            cuts: list(field(&t, "cuts")), bufs: list(field(&t, "bufs")),
        };
        let ei = apis.iter().position(|x| x.name == c.encoding).expect("encoding");
        let sh = mk(vec![0], 600);
        let mut ctx = Ctx { sh: &sh, api: &apis[ei], ei, o: &oracles[ei], group: group_of(oracles[ei].kind), buf: vec![0; 256], plan: Plan::default(), again: false, me: THREADS, calls: 0 };
        run_case(&mut ctx, &c);
        let f = sh.found.lock().unwrap();
        let mut any = false;
        for p in 0..NP { if let Some(x) = &f[p] { println!("C{:02}: {} {}: {}", p, c.encoding, c.op, x.msg); any = true; } }
        if !any { println!("no property is violated by this case"); }
        std::process::exit(if any { 1 } else { 0 });
    }
    let want: Vec<usize> = a[4].split(',').map(|x| x.trim_start_matches('C').parse().unwrap()).collect();
    let thorough = a[5] == "thorough";
    let secs: u64 = a[6].parse().unwrap();
    // name:number,number;name:...
    let dict: Vec<Vec<u64>> = apis.iter().map(|x| a.get(7).and_then(|t| t.split(';').find_map(|p| p.strip_prefix(x.name)?.strip_prefix(':'))).map(|t| t.split(',').filter_map(|y| y.parse().ok()).collect()).unwrap_or_default()).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let sh = mk(want.clone(), secs);
    let t0 = Instant::now();
    let jobs = gen::jobs(&want, &oracles, &apis, thorough, &dict, seed);
    let next = AtomicUsize::new(0);
    let (shr, apr, orr, jbr, nxr) = (&sh, &apis, &oracles, &jobs, &next);
    let done_jobs = AtomicUsize::new(0);
    let djr = &done_jobs;
    std::thread::scope(|sc| {
        for me in 0..THREADS {
            sc.spawn(move || {
                ME.with(|m| m.set(me));
                loop {
                    let j = nxr.fetch_add(1, Relaxed);
                    if j >= jbr.len() || shr.done() { break; }
                    let ei = jbr[j].ei;
                    let mut ctx = Ctx { sh: shr, api: &apr[ei], ei, o: &orr[ei], group: group_of(orr[ei].kind), buf: vec![0; 4096], plan: Plan::default(), again: false, me, calls: 0 };
                    (jbr[j].run)(&mut ctx);
                    CURS[me].op.store(0, SeqCst);
                    shr.calls.fetch_add(ctx.calls, Relaxed);
                    if !shr.done() { djr.fetch_add(1, Relaxed); }
                }
                CURS[me].op.store(0, SeqCst);
            });
        }
    });
    let f = sh.found.lock().unwrap();
    let mut s = String::new();
    for p in 0..NP { if let Some(x) = &f[p] { s.push_str(&format!("{{\"property\":\"C{:02}\",\"message\":{},\"case\":{}}}\n", p, js(&x.msg), x.case.json())); } }
    s.push_str(&format!("{{\"summary\":true,\"calls\":{},\"jobs\":{},\"jobs_done\":{},\"complete\":{},\"panics\":{},\"seconds\":{:.1}}}\n",
        sh.calls.load(SeqCst), jobs.len(), done_jobs.load(SeqCst), done_jobs.load(SeqCst) == jobs.len(), sh.panics.load(SeqCst), t0.elapsed().as_secs_f64()));
    use std::io::Write;
    (&out).write_all(s.as_bytes()).unwrap();
}
