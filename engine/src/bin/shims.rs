//! Evaluates the contracts that contracts/shims.rs and lemmas.rs assume of the
//! Rust core library against that library: over the whole domain where it is
//! finite and small enough, and otherwise over every small input of a
//! representative alphabet (the line printed for each says which).
//!
//! usage: shims SPEC_DIR quick|thorough      JSON lines; exit 1 if a contract is wrong
#[path = "../oracle.rs"]
#[allow(dead_code)]
mod oracle;
use oracle::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

static BAD: AtomicBool = AtomicBool::new(false);
static N: AtomicU64 = AtomicU64::new(0);

macro_rules! ck {
    ($c:expr, $($w:tt)*) => { if !($c) { BAD.store(true, SeqCst); println!("{{\"wrong\":\"{}\"}}", format!($($w)*).replace('"', "'").replace('\\', "/")); } }
}
fn case() { N.fetch_add(1, Relaxed); }
fn done(names: &[&str], how: &str) {
    for n in names { println!("{{\"contract\":\"{}\",\"evaluated\":\"{}\",\"cases\":{}}}", n, how, N.load(SeqCst)); }
    N.store(0, SeqCst);
}

// ---- the specification functions, as in contracts/spec.rs -----------------
fn clen(c: char) -> usize { let v = c as u32; if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x10000 { 3 } else { 4 } }
fn u8c(c: char) -> Vec<u8> {
    let v = c as u32;
    let r: Vec<u32> = if v < 0x80 { vec![v] } else if v < 0x800 { vec![0xC0 + v / 64, 0x80 + v % 64] }
        else if v < 0x10000 { vec![0xE0 + v / 4096, 0x80 + v / 64 % 64, 0x80 + v % 64] }
        else { vec![0xF0 + v / 262144, 0x80 + v / 4096 % 64, 0x80 + v / 64 % 64, 0x80 + v % 64] };
    r.into_iter().map(|x| x as u8).collect()
}
fn u8s(s: &[char]) -> Vec<u8> { s.iter().flat_map(|c| u8c(*c)).collect() }
fn off(s: &[char], k: usize) -> usize { s[..k].iter().map(|c| clen(*c)).sum() }
fn scalar(v: u64) -> bool { v < 0xD800 || (0xE000..0x110000).contains(&v) }

/// A `str` with the given characters, made from their bytes by the
/// specification, not by the library's encoder.
fn text(s: &[char]) -> String { unsafe { String::from_utf8_unchecked(u8s(s)) } }
fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

fn all_chars() -> impl Iterator<Item = char> { (0..0x110000u32).filter(|v| scalar(*v as u64)).map(|v| unsafe { char::from_u32_unchecked(v) }) }

fn par(n: u64, f: impl Fn(u64, u64) + Sync) {
    let t = 4;
    std::thread::scope(|s| for k in 0..t { let f = &f; s.spawn(move || f(n * k / t, n * (k + 1) / t)); });
}

fn seqs<T: Copy>(al: &[T], max: usize) -> Vec<Vec<T>> {
    let mut r: Vec<Vec<T>> = vec![vec![]];
    let mut i = 0;
    while i < r.len() {
        if r[i].len() < max { for a in al { let mut v = r[i].clone(); v.push(*a); r.push(v); } }
        i += 1;
    }
    r
}

fn chars() {
    for c in all_chars() {
        let e = u8c(c);
        ck!(e.len() == clen(c), "clen {:?}", c);
        for pad in 0..3 {
            case();
            let mut b = vec![0xEE; e.len() + pad];
            let r: &mut str = c.encode_utf8(&mut b);
            ck!(r.as_bytes() == &e[..] && r.chars().eq(std::iter::once(c)), "encode_utf8 {:?}", c);
            ck!(b[..e.len()] == e[..] && b[e.len()..].iter().all(|x| *x == 0xEE), "encode_utf8 frame {:?}", c);
        }
        ck!(c.len_utf8() == clen(c), "len_utf8 {:?}", c);
        ck!(c.len_utf16() == if (c as u32) < 0x10000 { 1 } else { 2 }, "len_utf16 {:?}", c);
        let v = c as u32;
        let w: Vec<u16> = if v < 0x10000 { vec![v as u16] } else { vec![(0xD800 + (v - 0x10000) / 0x400) as u16, (0xDC00 + (v - 0x10000) % 0x400) as u16] };
        for pad in 0..3 {
            case();
            let mut b = vec![0xEEEE; w.len() + pad];
            ck!(*c.encode_utf16(&mut b) == w[..] && b[..w.len()] == w[..] && b[w.len()..].iter().all(|x| *x == 0xEEEE), "encode_utf16 {:?}", c);
        }
        ck!(c.is_ascii() == ((c as u32) < 0x80), "is_ascii {:?}", c);
    }
    done(&["VChar::v_encode_utf8", "VChar::v_encode_utf16", "VChar::v_len_utf8", "VChar::v_len_utf16", "VChar::v_is_ascii"], "completely (every character; three buffer lengths)");
}
fn ints(thorough: bool) {
    for v in 0..=0xFFFFu32 {
        case();
        let (h, l) = ((v / 256) as u8, (v % 256) as u8);
        let w = v as u16;
        ck!(w.to_be_bytes() == [h, l] && w.to_le_bytes() == [l, h], "u16 to bytes {}", v);
        ck!(u16::from_be_bytes([h, l]) == w && u16::from_le_bytes([l, h]) == w, "u16 from bytes {}", v);
    }
    done(&["VU16::v_to_le_bytes", "VU16::v_to_be_bytes", "v_u16_from_le_bytes", "v_u16_from_be_bytes"], "completely");
    let step = if thorough { 1 } else { 61 };
    let one = |x: u64| {
        let v = x as u32;
        let b = [(x / 16777216) as u8, (x / 65536 % 256) as u8, (x / 256 % 256) as u8, (x % 256) as u8];
        let mut l = b;
        l.reverse();
        ck!(v.to_be_bytes() == b && v.to_le_bytes() == l, "u32 to bytes {}", v);
        ck!(u32::from_be_bytes(b) == v && u32::from_le_bytes(l) == v, "u32 from bytes {}", v);
        match char::from_u32(v) {
            Some(c) => { ck!(scalar(x) && c as u32 == v, "from_u32 {}", v); ck!(unsafe { char::from_u32_unchecked(v) } == c, "from_u32_unchecked {}", v); }
            None => ck!(!scalar(x), "from_u32 {}", v),
        }
    };
    par((1u64 << 32) / step, |a, b| for x in a..b { one(x * step) });
    par(0x120000, |a, b| for x in a..b { one(x) });
    N.store((1u64 << 32) / step, SeqCst);
    done(&["VU32::v_to_le_bytes", "VU32::v_to_be_bytes", "v_u32_from_le_bytes", "v_u32_from_be_bytes", "v_from_u32", "v_from_u32_unchecked"],
        if thorough { "completely" } else { "every 61st value, and every value up to 0x120000" });
}

/// One char per UTF-8 length and edge.
const AL: [char; 7] = ['\0', '\x7F', '\u{80}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10FFFF}'];

fn texts() {
    for s in seqs(&AL, 5) {
        case();
        let t = text(&s);
        let b = u8s(&s);
        let n = off(&s, s.len());
        ck!(t.len() == n && b.len() == n && n <= isize::MAX as usize, "len {:?}", s);
        ck!(t.is_empty() == s.is_empty(), "is_empty {:?}", s);
        ck!(t.as_bytes() == &b[..], "as_bytes {:?}", s);
        let mut ci = t.char_indices();
        let mut cs = t.chars();
        for k in 0..=s.len() {
            ck!(ci.as_str().as_bytes() == &u8s(&s[k..])[..] && cs.as_str().as_bytes() == &u8s(&s[k..])[..], "as_str {:?} {}", s, k);
            ck!(ci.offset() == off(&s, k), "offset {:?} {}", s, k);
            ck!(ci.clone().collect::<Vec<_>>() == (k..s.len()).map(|j| (off(&s, j), s[j])).collect::<Vec<_>>(), "clone {:?} {}", s, k);
            ck!(cs.clone().collect::<Vec<_>>() == s[k..].to_vec(), "clone {:?} {}", s, k);
            let (x, y) = (ci.next(), cs.next());
            if k < s.len() { ck!(x == Some((off(&s, k), s[k])) && y == Some(s[k]), "next {:?} {}", s, k); }
            else { ck!(x.is_none() && y.is_none() && ci.next().is_none() && cs.next().is_none(), "next {:?} {}", s, k); }
        }
        let offs: Vec<usize> = (0..=s.len()).map(|k| off(&s, k)).collect();
        for i in 0..=n + 1 {
            ck!(t.is_char_boundary(i) == offs.contains(&i), "is_char_boundary {:?} {}", s, i);
            if let Some(k) = offs.iter().position(|o| *o == i) {
                ck!(t[..i].as_bytes() == &b[..i] && t[..i].chars().eq(s[..k].iter().cloned()), "prefix {:?} {}", s, i);
                ck!(t[i..].as_bytes() == &b[i..] && t[i..].chars().eq(s[k..].iter().cloned()), "suffix {:?} {}", s, i);
            }
        }
    }
    done(&["VStr::v_len", "VStr::v_is_empty", "VStr::v_as_bytes", "VStr::v_is_char_boundary", "VStr::v_char_indices", "VStr::v_chars", "VStr::v_str_to", "VStr::v_str_from",
        "VCharIndices::raw_as_str", "VCharIndices::offset", "VCharIndices::next", "VCharIndices::clone", "chars_as_str", "chars_clone", "VChars::next", "VChars::clone", "ax_str_len"],
        "every text of up to 5 characters over 7 (each UTF-8 length at both ends)");
}

fn slices() {
    for s in seqs(&[1u8, 2, 3], 6) {
        case();
        let n = s.len();
        ck!(n <= isize::MAX as usize && s.is_empty() == (n == 0), "len");
        ck!(s.first() == (if n > 0 { Some(&s[0]) } else { None }) && s.last() == (if n > 0 { Some(&s[n - 1]) } else { None }), "first/last {:?}", s);
        match s.split_first() { Some((x, y)) => ck!(n > 0 && *x == s[0] && y == &s[1..], "split_first {:?}", s), None => ck!(n == 0, "split_first {:?}", s) }
        let mut it = s.iter();
        for k in 0..=n {
            ck!(it.as_slice() == &s[k..] && it.clone().cloned().collect::<Vec<_>>() == s[k..].to_vec(), "iter {:?} {}", s, k);
            let x = it.next();
            ck!(x.cloned() == if k < n { Some(s[k]) } else { None }, "iter next {:?} {}", s, k);
        }
        for c in 1..=n + 2 {
            let mut it = s.chunks(c);
            let mut p = 0;
            loop {
                let rest: Vec<u8> = it.clone().flatten().cloned().collect();
                ck!(rest == s[p..].to_vec(), "chunks clone {:?} {}", s, c);
                match it.next() {
                    None => { ck!(p == n, "chunks end {:?} {}", s, c); break; }
                    Some(x) => { let q = if p + c <= n { p + c } else { n }; ck!(p < n && x == &s[p..q], "chunks {:?} {}", s, c); p = q; }
                }
            }
        }
        for i in (0..=n + 2).chain([usize::MAX - 1, usize::MAX]) {
            match s.get(i) { Some(x) => ck!(i < n && *x == s[i], "get {:?} {}", s, i), None => ck!(i >= n, "get {:?} {}", s, i) }
            if i < n { ck!(unsafe { *s.get_unchecked(i) } == s[i], "get_unchecked {:?} {}", s, i); }
            if i <= n {
                let (a, b) = s.split_at(i);
                ck!(a == &s[..i] && b == &s[i..], "split_at {:?} {}", s, i);
                let mut d = s.clone();
                { let (a, b) = d.split_at_mut(i); ck!(a == &s[..i] && b == &s[i..], "split_at_mut {:?} {}", s, i); a.fill(8); b.fill(9); }
                ck!((0..n).all(|j| d[j] == if j < i { 8 } else { 9 }), "split_at_mut {:?} {}", s, i);
            }
            for j in (0..=n + 2).chain([usize::MAX]) {
                let ok = i <= j && j <= n;
                match s.get(i..j) { Some(x) => ck!(ok && x == &s[i..j], "get range {:?} {} {}", s, i, j), None => ck!(!ok, "get range {:?} {} {}", s, i, j) }
                let mut d = s.clone();
                match d.get_mut(i..j) {
                    Some(x) => { ck!(ok && x == &s[i..j], "get_mut range {:?} {} {}", s, i, j); x.fill(7) }
                    None => ck!(!ok, "get_mut range {:?} {} {}", s, i, j),
                }
                ck!((0..n).all(|k| d[k] == if ok && i <= k && k < j { 7 } else { s[k] }), "get_mut range frame {:?} {} {}", s, i, j);
                if ok {
                    let mut d = s.clone();
                    { let x = &mut d[i..j]; ck!(x == &s[i..j], "slice mut"); x.fill(7) }
                    ck!((0..n).all(|k| d[k] == if i <= k && k < j { 7 } else { s[k] }), "slice mut {:?} {} {}", s, i, j);
                    let src: Vec<u8> = (0..(j - i) as u8).map(|x| x + 20).collect();
                    let mut d = s.clone();
                    d[i..j].copy_from_slice(&src);
                    ck!((0..n).all(|k| d[k] == if i <= k && k < j { src[k - i] } else { s[k] }), "copy {:?} {} {}", s, i, j);
                }
                // without the precondition the call panics
                if n <= 3 && i < 9 && j < 9 {
                    for l in 0..=n + 1 {
                        let mut d = s.clone();
                        let src = vec![5; l];
                        ck!(panics(|| d[i..j].copy_from_slice(&src)) == !(ok && l == j - i), "copy panics {:?} {} {} {}", s, i, j, l);
                    }
                }
            }
        }
        let mut d = s.clone();
        let src: Vec<u8> = (0..n as u8).collect();
        d.copy_from_slice(&src);
        ck!(d == src, "copy_from_slice {:?}", s);
        d.fill(200);
        ck!(d == vec![200; n], "fill {:?}", s);
    }
    done(&["VSlice::v_len", "VSlice::v_is_empty", "VSlice::v_iter", "VSlice::v_chunks", "VSlice::v_get", "VSlice::v_first", "VSlice::v_last", "VSlice::v_get_range", "VSlice::v_split_first",
        "VSlice::v_get_unchecked", "VSlice::v_split_at", "v_copy", "v_slice_mut", "v_get_mut_range", "VSliceMut::v_copy_from_slice", "VSliceMut::v_fill", "VSliceMut::v_split_at_mut",
        "iter_as_slice", "iter_clone", "VIter::v_as_slice", "VIter::next", "VIter::clone", "VChunks::next", "VChunks::clone", "ax_slice_len"],
        "every slice of up to 6 elements over 3, all indices");
}

fn utf8_one(o: &Oracle, b: &[u8]) {
    let mut i = 0;
    let stop = loop {
        if i == b.len() { break None; }
        match o.dstep(b, i) { DStep::Emit(n, _, _) => i += n, DStep::Bad => break Some(true), DStep::Inc => break Some(false) }
    };
    match std::str::from_utf8(b) {
        Ok(t) => {
            ck!(stop.is_none() && t.as_bytes() == b, "from_utf8 {:02x?}", b);
            ck!(unsafe { std::str::from_utf8_unchecked(b) } == t, "from_utf8_unchecked {:02x?}", b);
        }
        Err(e) => {
            ck!(stop.is_some() && e.valid_up_to() == i && i < b.len(), "from_utf8 {:02x?}", b);
            ck!(e.error_len().is_some() == (stop == Some(true)) && e.error_len().map_or(true, |n| 1 <= n && n <= 3), "error_len {:02x?}", b);
        }
    }
}
fn utf8(spec: &str, thorough: bool) {
    let o = Oracle::new(spec, "utf8");
    let o = &o;
    utf8_one(o, &[]);
    for a in 0..=255u8 { utf8_one(o, &[a]); for b in 0..=255u8 { utf8_one(o, &[a, b]); } }
    par(1 << 24, |x, y| for v in x..y { utf8_one(o, &[(v >> 16) as u8, (v >> 8) as u8, v as u8]); });
    // longer inputs: one byte of every class the definition distinguishes
    let cls = [0x00u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
    let k = cls.len() as u64;
    let len = if thorough { 6 } else { 4 };
    for l in 4..=len as u32 {
        par(k.pow(l), |x, y| for mut v in x..y { let mut b = [0u8; 8]; for j in 0..l as usize { b[j] = cls[(v % k) as usize]; v /= k; } utf8_one(o, &b[..l as usize]); });
    }
    if thorough { par(1 << 32, |x, y| for v in x..y { utf8_one(o, &(v as u32).to_be_bytes()); }); }
    // long inputs: the library has a separate path for aligned ASCII
    for n in 0..200usize {
        for at in 0..=n {
            for bad in [&[0xC2u8, 0xA9][..], &[0xF0, 0x90, 0x80, 0x80], &[0xFF], &[0xE2, 0x82], &[0xED, 0xA0, 0x80]] {
                let mut b = vec![b'a'; n];
                let tail = b.split_off(at);
                b.extend_from_slice(bad);
                b.extend(tail);
                utf8_one(o, &b);
            }
        }
    }
    N.store((1 << 24) + if thorough { 1 << 32 } else { 0 }, SeqCst);
    done(&["v_from_utf8", "VUtf8Error::valid_up_to", "VUtf8Error::error_len", "v_from_utf8_unchecked"],
        if thorough { "every input of up to 4 bytes; up to 6 bytes over 24 byte classes; one fault anywhere in up to 200 ASCII bytes" }
        else { "every input of up to 3 bytes; 4 bytes over 24 byte classes; one fault anywhere in up to 200 ASCII bytes" });
}

/// The encode tables the code has, as published: every character looked up.
fn tables(spec: &str) {
    let mut names: Vec<String> = std::fs::read_dir(spec).unwrap().filter_map(|e| e.unwrap().file_name().into_string().unwrap().strip_suffix(".dec").map(|s| s.to_string())).collect();
    names.sort();
    for m in &names {
        let o = Oracle::new(spec, m);
        let t: Vec<(char, u16)> = (0..o.enc.len() as u32).filter(|c| o.enc[*c as usize] != 0).map(|c| (char::from_u32(c).unwrap(), o.enc[c as usize])).collect();
        par(0x110000, |a, b| for v in a..b {
            if let Some(c) = char::from_u32(v as u32) {
                let has = o.enc.get(v as usize).map_or(false, |x| *x != 0);
                match t.binary_search_by_key(&c, |x| x.0) {
                    Ok(i) => ck!(has && i < t.len() && t[i].0 == c, "search {} {:?}", m, c),
                    Err(_) => ck!(!has, "search {} {:?}", m, c),
                }
            }
        });
    }
    for s in seqs(&[0u32, 1, 2, 3, 4], 5) {
        if s.windows(2).all(|w| w[0] < w[1]) {
            let t: Vec<(char, u8)> = s.iter().map(|v| (char::from_u32(*v * 2 + 1).unwrap(), 0)).collect();
            for q in 0..12u32 {
                let c = char::from_u32(q).unwrap();
                match t.binary_search_by_key(&c, |x| x.0) { Ok(i) => ck!(t[i].0 == c, "search"), Err(_) => ck!(t.iter().all(|x| x.0 != c), "search") }
            }
        }
    }
    N.store(0x110000 * names.len() as u64, SeqCst);
    done(&["raw_search1", "raw_search2"], "completely, for the published tables; every sorted table of up to 5 rows over 5 keys");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = a[2] == "thorough";
    chars();
    ints(thorough);
    texts();
    slices();
    utf8(&a[1], thorough);
    tables(&a[1]);
    done(&["v_panic"], "(its precondition is `false`: nothing is assumed)");
    std::process::exit(if BAD.load(SeqCst) { 1 } else { 0 });
}
