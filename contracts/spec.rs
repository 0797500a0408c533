// ---------------------------------------------------------------------------
// Mathematical specification.  Nothing here mentions the code in /repo.
// ---------------------------------------------------------------------------

/// U+FFFD, which the tables of the code (and the frozen standard tables) use
/// for "no character assigned".
pub spec const REPL: char = '\u{FFFD}';

// ----- UTF-8 form of a code point, by arithmetic (Unicode 3.9, table 3-6) ---

pub open spec fn clen(c: char) -> int {
    let v = c as u32 as int;
    if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x10000 { 3 } else { 4 }
}

#[verifier::opaque]
pub open spec fn u8c(c: char) -> Seq<u8> {
    let v = c as u32 as int;
    if v < 0x80 {
        seq![v as u8]
    } else if v < 0x800 {
        seq![(0xC0 + v / 64) as u8, (0x80 + v % 64) as u8]
    } else if v < 0x10000 {
        seq![(0xE0 + v / 4096) as u8, (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8]
    } else {
        seq![(0xF0 + v / 262144) as u8, (0x80 + (v / 4096) % 64) as u8,
             (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8]
    }
}

/// Is `v` a Unicode scalar value?
pub open spec fn scalar(v: int) -> bool {
    (0 <= v < 0xD800) || (0xE000 <= v < 0x110000)
}

/// Texts of one and of two characters.
pub open spec fn t1(c: char) -> Seq<char> { seq![c] }
pub open spec fn t2(c: char, d: char) -> Seq<char> { seq![c, d] }

/// UTF-8 form of a text.
#[verifier::opaque]
pub open spec fn u8s(s: Seq<char>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { u8s(s.drop_last()) + u8c(s.last()) }
}

/// Byte offset of the k-th character of `s`.
#[verifier::opaque]
pub open spec fn off(s: Seq<char>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { off(s, k - 1) + clen(s[k - 1]) }
}

/// Well-formed UTF-8.
pub open spec fn wf(b: Seq<u8>) -> bool {
    exists|s: Seq<char>| b =~= #[trigger] u8s(s)
}

// ----- Encoding ------------------------------------------------------------

#[allow(inconsistent_fields)]
pub enum EEnc {
    Utf8,
    Utf16 { be: bool },
    Utf32 { be: bool },
    Sb { tab: Seq<(char, u8)> },
    Big5 { tab: Seq<(char, [u8; 2])> },
    Sjis { tab: Seq<(char, [u8; 2])> },
}

pub enum EStep {
    /// The next `n` characters have the code `b`.
    Emit { n: int, b: Seq<u8> },
    /// The next character has no code.
    Bad,
    /// What the next character's code is depends on text not yet seen.
    Wait,
}

#[verifier::opaque]
pub open spec fn bytes2(be: bool, v: int) -> Seq<u8> {
    if be { seq![(v / 256) as u8, (v % 256) as u8] } else { seq![(v % 256) as u8, (v / 256) as u8] }
}

#[verifier::opaque]
pub open spec fn bytes4(be: bool, v: int) -> Seq<u8> {
    if be {
        seq![(v / 16777216) as u8, ((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8]
    } else {
        seq![(v % 256) as u8, ((v / 256) % 256) as u8, ((v / 65536) % 256) as u8, (v / 16777216) as u8]
    }
}

/// UTF-16 (Unicode 3.9, D91, table 3-5).
#[verifier::opaque]
pub open spec fn u16c(be: bool, c: char) -> Seq<u8> {
    let v = c as u32 as int;
    if v < 0x10000 {
        bytes2(be, v)
    } else {
        let h = bytes2(be, 0xD800 + (v - 0x10000) / 1024);
        let l = bytes2(be, 0xDC00 + (v - 0x10000) % 1024);
        seq![h[0], h[1], l[0], l[1]]
    }
}

/// The code of `c` in an encode table.
#[verifier::opaque]
pub open spec fn has1(tab: Seq<(char, u8)>, c: char) -> bool {
    exists|i: int| 0 <= i < tab.len() && (#[trigger] tab[i]).0 == c
}
#[verifier::opaque]
pub open spec fn get1(tab: Seq<(char, u8)>, c: char) -> u8 {
    let i = choose|i: int| 0 <= i < tab.len() && (#[trigger] tab[i]).0 == c;
    tab[i].1
}
#[verifier::opaque]
pub open spec fn has2(tab: Seq<(char, [u8; 2])>, c: char) -> bool {
    exists|i: int| 0 <= i < tab.len() && (#[trigger] tab[i]).0 == c
}
#[verifier::opaque]
pub open spec fn get2(tab: Seq<(char, [u8; 2])>, c: char) -> Seq<u8> {
    let i = choose|i: int| 0 <= i < tab.len() && (#[trigger] tab[i]).0 == c;
    tab[i].1@
}
pub open spec fn sorted1(tab: Seq<(char, u8)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < tab.len() ==> ((#[trigger] tab[i]).0 as u32) < ((#[trigger] tab[j]).0 as u32)
}
pub open spec fn sorted2(tab: Seq<(char, [u8; 2])>) -> bool {
    forall|i: int, j: int| 0 <= i < j < tab.len() ==> ((#[trigger] tab[i]).0 as u32) < ((#[trigger] tab[j]).0 as u32)
}

pub open spec fn sb_code(tab: Seq<(char, u8)>, c: char) -> EStep {
    if (c as u32) < 0x80 { EStep::Emit { n: 1, b: seq![c as u32 as u8] } }
    else if has1(tab, c) { EStep::Emit { n: 1, b: seq![get1(tab, c)] } }
    else { EStep::Bad }
}

/// Big5: the two base characters that have codes together with a following mark.
pub open spec fn b5_base(c: char) -> bool { c as u32 == 0xCA || c as u32 == 0xEA }
pub open spec fn b5_mark(c: char) -> bool { c as u32 == 0x304 || c as u32 == 0x30C }
pub open spec fn b5_pair(a: char, m: char) -> Seq<u8> {
    if a as u32 == 0xCA {
        if m as u32 == 0x304 { seq![0x88u8, 0x62u8] } else { seq![0x88u8, 0x64u8] }
    } else {
        if m as u32 == 0x304 { seq![0x88u8, 0xA3u8] } else { seq![0x88u8, 0xA5u8] }
    }
}

pub open spec fn sjis_code(tab: Seq<(char, [u8; 2])>, c: char) -> EStep {
    let v = c as u32 as int;
    if v <= 0x80 { EStep::Emit { n: 1, b: seq![v as u8] } }
    else if v == 0xA5 { EStep::Emit { n: 1, b: seq![0x5Cu8] } }
    else if v == 0x203E { EStep::Emit { n: 1, b: seq![0x7Eu8] } }
    else if 0xFF61 <= v <= 0xFF9F { EStep::Emit { n: 1, b: seq![(v - 0xFF61 + 0xA1) as u8] } }
    else if 0xE000 <= v <= 0xE757 { EStep::Emit { n: 1, b: sjis_ptr_bytes(v - 0xE000 + 8836) } }
    else {
        let d = if v == 0x2212 { '\u{FF0D}' } else { c };
        if has2(tab, d) { EStep::Emit { n: 1, b: get2(tab, d) } } else { EStep::Bad }
    }
}

/// WHATWG Shift JIS encoder, steps 9 to 14.
#[verifier::opaque]
pub open spec fn sjis_ptr_bytes(p: int) -> Seq<u8> {
    let lead = p / 188;
    let trail = p % 188;
    seq![(lead + (if lead < 0x1F { 0x81int } else { 0xC1int })) as u8,
         (trail + (if trail < 0x3F { 0x40int } else { 0x41int })) as u8]
}

pub open spec fn big5_code(tab: Seq<(char, [u8; 2])>, s: Seq<char>, i: int, end: bool) -> EStep {
    if (s[i] as u32) < 0x80 { EStep::Emit { n: 1, b: seq![s[i] as u32 as u8] } }
    else if b5_base(s[i]) && i + 1 < s.len() && b5_mark(s[i + 1]) {
        EStep::Emit { n: 2, b: b5_pair(s[i], s[i + 1]) }
    }
    else if b5_base(s[i]) && i + 1 >= s.len() && !end { EStep::Wait }
    else if has2(tab, s[i]) { EStep::Emit { n: 1, b: get2(tab, s[i]) } }
    else { EStep::Bad }
}

#[verifier::opaque]
pub open spec fn estep(e: EEnc, s: Seq<char>, i: int, end: bool) -> EStep {
    match e {
        EEnc::Utf8 => EStep::Emit { n: 1, b: u8c(s[i]) },
        EEnc::Utf16 { be } => EStep::Emit { n: 1, b: u16c(be, s[i]) },
        EEnc::Utf32 { be } => EStep::Emit { n: 1, b: bytes4(be, s[i] as u32 as int) },
        EEnc::Sb { tab } => sb_code(tab, s[i]),
        EEnc::Big5 { tab } => big5_code(tab, s, i, end),
        EEnc::Sjis { tab } => sjis_code(tab, s[i]),
    }
}

/// Length of the longest code of the encoding.
pub open spec fn emax(e: EEnc) -> int {
    match e {
        EEnc::Utf8 => 4,
        EEnc::Utf16 { be } => 4,
        EEnc::Utf32 { be } => 4,
        EEnc::Sb { tab } => 1,
        EEnc::Big5 { tab } => 2,
        EEnc::Sjis { tab } => 2,
    }
}

/// The encoding of characters i..j of `s`, if the greedy encoder, started at
/// i, stops exactly at j.
#[verifier::opaque]
pub open spec fn erun(e: EEnc, s: Seq<char>, i: int, j: int, end: bool) -> Option<Seq<u8>>
    decreases j - i,
{
    if i >= j {
        if i == j { Some(Seq::empty()) } else { None }
    } else {
        match estep(e, s, i, end) {
            EStep::Emit { n, b } => if n >= 1 && i + n <= j {
                match erun(e, s, i + n, j, end) {
                    Some(r) => Some(b + r),
                    None => None,
                }
            } else { None },
            _ => None,
        }
    }
}

/// May an encoder stop (without error) at character k with `room` bytes left?
pub open spec fn estop(e: EEnc, s: Seq<char>, k: int, end: bool, room: int) -> bool {
    ||| k == s.len()
    ||| match estep(e, s, k, end) {
            EStep::Emit { n, b } => room < b.len(),
            EStep::Bad => room < emax(e),
            EStep::Wait => true,
        }
}

/// `n` bytes at the front of `out` are exactly `x`.
pub open spec fn front(out: Seq<u8>, n: int, x: Seq<u8>) -> bool {
    &&& x.len() == n
    &&& 0 <= n <= out.len()
    &&& forall|j: int| 0 <= j < n ==> #[trigger] out[j] == x[j]
}

// The clauses of an encoder's contract.

pub open spec fn enc_exact(e: EEnc, s: Seq<char>, end: bool, out: Seq<u8>, r: Seq<u8>, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && n == #[trigger] off(s, k)
        && erun(e, s, 0, k, end) is Some && erun(e, s, 0, k, end)->0 =~= r && front(out, r.len() as int, r)
}
pub open spec fn enc_stop(e: EEnc, s: Seq<char>, end: bool, outlen: int, rlen: int, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && n == #[trigger] off(s, k)
        && estop(e, s, k, end, outlen - rlen)
}
pub open spec fn enc_err(e: EEnc, s: Seq<char>, end: bool, out: Seq<u8>, c: char, lo: int, hi: int, w: int) -> bool {
    exists|k: int| 0 <= k < s.len() && lo == #[trigger] off(s, k) && hi == off(s, k) + clen(s[k])
        && c == s[k] && estep(e, s, k, end) == EStep::Bad
        && 0 <= w <= out.len() && erun(e, s, 0, k, end) is Some && erun(e, s, 0, k, end)->0 =~= out.subrange(0, w)
}

// ----- Decoding ------------------------------------------------------------

#[allow(inconsistent_fields)]
pub enum DEnc {
    Utf8,
    Utf16 { be: bool },
    Utf32 { be: bool },
    Sb { tab: Seq<char> },
    Big5 { tab: Seq<char> },
    Sjis { tab: Seq<char> },
}

pub enum DStep {
    /// The next `n` bytes mean the text `t`.
    Emit { n: int, t: Seq<char> },
    /// Malformed or unmapped.
    Bad,
    /// Acceptable so far, but the input ends.
    Incomplete,
}

pub open spec fn one(n: int, v: int) -> DStep { DStep::Emit { n, t: t1(v as u32 as char) } }

pub open spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xBF }

/// Second byte ranges of Unicode table 3-7.
pub open spec fn second_ok(b0: u8, b1: u8) -> bool {
    if b0 == 0xE0 { 0xA0 <= b1 <= 0xBF }
    else if b0 == 0xED { 0x80 <= b1 <= 0x9F }
    else if b0 == 0xF0 { 0x90 <= b1 <= 0xBF }
    else if b0 == 0xF4 { 0x80 <= b1 <= 0x8F }
    else { 0x80 <= b1 <= 0xBF }
}

/// UTF-8 (Unicode 3.9, D92, table 3-7).
pub open spec fn dstep_utf8(b: Seq<u8>, i: int) -> DStep {
    let l = b.len() - i;
    let b0 = b[i] as int;
    if b0 < 0x80 { one(1, b0) }
    else if b0 < 0xC2 || b0 > 0xF4 { DStep::Bad }
    else if l < 2 { DStep::Incomplete }
    else if !second_ok(b[i], b[i + 1]) { DStep::Bad }
    else if b0 < 0xE0 { one(2, (b0 - 0xC0) * 64 + (b[i + 1] - 0x80)) }
    else if l < 3 { DStep::Incomplete }
    else if !cont(b[i + 2]) { DStep::Bad }
    else if b0 < 0xF0 { one(3, (b0 - 0xE0) * 4096 + (b[i + 1] - 0x80) * 64 + (b[i + 2] - 0x80)) }
    else if l < 4 { DStep::Incomplete }
    else if !cont(b[i + 3]) { DStep::Bad }
    else { one(4, (b0 - 0xF0) * 262144 + (b[i + 1] - 0x80) * 4096 + (b[i + 2] - 0x80) * 64 + (b[i + 3] - 0x80)) }
}

pub open spec fn unit2(be: bool, b: Seq<u8>, i: int) -> int {
    if be { b[i] as int * 256 + b[i + 1] as int } else { b[i + 1] as int * 256 + b[i] as int }
}
pub open spec fn unit4(be: bool, b: Seq<u8>, i: int) -> int {
    if be {
        b[i] as int * 16777216 + b[i + 1] as int * 65536 + b[i + 2] as int * 256 + b[i + 3] as int
    } else {
        b[i + 3] as int * 16777216 + b[i + 2] as int * 65536 + b[i + 1] as int * 256 + b[i] as int
    }
}

/// UTF-16 (Unicode 3.9, D91).
pub open spec fn dstep_utf16(be: bool, b: Seq<u8>, i: int) -> DStep {
    let l = b.len() - i;
    if l < 2 { DStep::Incomplete }
    else {
        let u = unit2(be, b, i);
        if u < 0xD800 || u >= 0xE000 { one(2, u) }
        else if u >= 0xDC00 { DStep::Bad }
        else if l < 4 { DStep::Incomplete }
        else {
            let w = unit2(be, b, i + 2);
            if 0xDC00 <= w < 0xE000 { one(4, 0x10000 + (u - 0xD800) * 1024 + (w - 0xDC00)) }
            else { DStep::Bad }
        }
    }
}

pub open spec fn dstep_utf32(be: bool, b: Seq<u8>, i: int) -> DStep {
    let l = b.len() - i;
    if l < 4 { DStep::Incomplete }
    else if scalar(unit4(be, b, i)) { one(4, unit4(be, b, i)) }
    else { DStep::Bad }
}

pub open spec fn dstep_sb(tab: Seq<char>, b: Seq<u8>, i: int) -> DStep {
    if b[i] < 0x80 { one(1, b[i] as int) }
    else if tab[b[i] as int - 0x80] == REPL { DStep::Bad }
    else { DStep::Emit { n: 1, t: t1(tab[b[i] as int - 0x80]) } }
}

pub open spec fn b5_ptr(b0: u8, b1: u8) -> int {
    (b0 - 0x81) * 157 + (if b1 < 0x7F { b1 - 0x40 } else { b1 - 0x62 })
}
pub open spec fn b5_trail(b: u8) -> bool { 0x40 <= b <= 0x7E || 0xA1 <= b <= 0xFE }

/// WHATWG Big5 decoder.
pub open spec fn dstep_big5(tab: Seq<char>, b: Seq<u8>, i: int) -> DStep {
    let l = b.len() - i;
    if b[i] < 0x80 { one(1, b[i] as int) }
    else if b[i] == 0x80 || b[i] == 0xFF { DStep::Bad }
    else if l < 2 { DStep::Incomplete }
    else if !b5_trail(b[i + 1]) { DStep::Bad }
    else {
        let p = b5_ptr(b[i], b[i + 1]);
        if p == 1133 { DStep::Emit { n: 2, t: t2('\u{CA}', '\u{304}') } }
        else if p == 1135 { DStep::Emit { n: 2, t: t2('\u{CA}', '\u{30C}') } }
        else if p == 1164 { DStep::Emit { n: 2, t: t2('\u{EA}', '\u{304}') } }
        else if p == 1166 { DStep::Emit { n: 2, t: t2('\u{EA}', '\u{30C}') } }
        else if p < tab.len() && tab[p] != REPL { DStep::Emit { n: 2, t: t1(tab[p]) } }
        else { DStep::Bad }
    }
}

pub open spec fn sj_ptr(b0: u8, b1: u8) -> int {
    (b0 - (if b0 < 0xA0 { 0x81int } else { 0xC1int })) * 188 + (b1 - (if b1 < 0x7F { 0x40int } else { 0x41int }))
}
pub open spec fn sj_trail(b: u8) -> bool { 0x40 <= b <= 0x7E || 0x80 <= b <= 0xFC }

/// WHATWG Shift JIS decoder.
pub open spec fn dstep_sjis(tab: Seq<char>, b: Seq<u8>, i: int) -> DStep {
    let l = b.len() - i;
    if b[i] <= 0x80 { one(1, b[i] as int) }
    else if 0xA1 <= b[i] <= 0xDF { one(1, 0xFF61 - 0xA1 + b[i]) }
    else if b[i] == 0xA0 || b[i] > 0xFC { DStep::Bad }
    else if l < 2 { DStep::Incomplete }
    else if !sj_trail(b[i + 1]) { DStep::Bad }
    else {
        let p = sj_ptr(b[i], b[i + 1]);
        if 8836 <= p <= 10715 { one(2, 0xE000 - 8836 + p) }
        else if p < tab.len() && tab[p] != REPL { DStep::Emit { n: 2, t: t1(tab[p]) } }
        else { DStep::Bad }
    }
}

#[verifier::opaque]
pub open spec fn dstep(d: DEnc, b: Seq<u8>, i: int) -> DStep {
    match d {
        DEnc::Utf8 => dstep_utf8(b, i),
        DEnc::Utf16 { be } => dstep_utf16(be, b, i),
        DEnc::Utf32 { be } => dstep_utf32(be, b, i),
        DEnc::Sb { tab } => dstep_sb(tab, b, i),
        DEnc::Big5 { tab } => dstep_big5(tab, b, i),
        DEnc::Sjis { tab } => dstep_sjis(tab, b, i),
    }
}

/// The text (as UTF-8) that bytes i..j of `b` mean, if j is a boundary.
#[verifier::opaque]
pub open spec fn drun(d: DEnc, b: Seq<u8>, i: int, j: int) -> Option<Seq<u8>>
    decreases j - i,
{
    if i >= j {
        if i == j { Some(Seq::empty()) } else { None }
    } else {
        match dstep(d, b, i) {
            DStep::Emit { n, t } => if n >= 1 && i + n <= j {
                match drun(d, b, i + n, j) {
                    Some(r) => Some(u8s(t) + r),
                    None => None,
                }
            } else { None },
            _ => None,
        }
    }
}

/// May a decoder stop (without error) at byte p with `room` bytes left?
pub open spec fn dstop(d: DEnc, b: Seq<u8>, p: int, end: bool, room: int) -> bool {
    ||| p == b.len()
    ||| room == 0
    ||| match dstep(d, b, p) {
            DStep::Emit { n, t } => room < u8s(t).len(),
            DStep::Bad => false,
            DStep::Incomplete => !end,
        }
}

// The clauses of a decoder's contract.

pub open spec fn dec_exact(d: DEnc, b: Seq<u8>, t: Seq<u8>, n: int) -> bool {
    0 <= n <= b.len() && drun(d, b, 0, n) is Some && drun(d, b, 0, n)->0 =~= t
}
pub open spec fn dec_err(d: DEnc, b: Seq<u8>, end: bool, out: Seq<u8>, lo: int, w: int) -> bool {
    &&& 0 <= lo < b.len()
    &&& match dstep(d, b, lo) {
            DStep::Emit { n, t } => false,
            DStep::Bad => true,
            DStep::Incomplete => end,
        }
    &&& 0 <= w <= out.len()
    &&& drun(d, b, 0, lo) is Some && drun(d, b, 0, lo)->0 =~= out.subrange(0, w)
}

/// Could this byte begin a character in UTF-8?
pub open spec fn u8_starter(b: u8) -> bool { b < 0x80 || 0xC2 <= b <= 0xF4 }

/// May an error that starts at `lo` extend to `hi`?
pub open spec fn dec_extent(d: DEnc, b: Seq<u8>, lo: int, hi: int) -> bool {
    &&& 0 <= lo < hi <= b.len()
    &&& match d {
        DEnc::Utf8 => forall|j: int| lo < j < hi ==> !u8_starter(#[trigger] b[j]),
        DEnc::Utf16 { be } => match dstep(d, b, lo) {
            DStep::Incomplete => hi == b.len(),
            _ => hi == lo + 2,
        },
        DEnc::Utf32 { be } => match dstep(d, b, lo) {
            DStep::Incomplete => hi == b.len(),
            _ => hi == lo + 4,
        },
        DEnc::Sb { tab } => hi == lo + 1,
        DEnc::Big5 { tab } => hi == lo + (
            if b[lo] == 0x80 || b[lo] == 0xFF || lo + 1 >= b.len() || b[lo + 1] < 0x80 { 1int } else { 2int }),
        DEnc::Sjis { tab } => hi == lo + (
            if b[lo] == 0xA0 || b[lo] > 0xFC || lo + 1 >= b.len() || b[lo + 1] < 0x80 { 1int } else { 2int }),
    }
}
