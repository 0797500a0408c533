// ---------------------------------------------------------------------------
// C11 to C16: what the conversions mean together, over the contract clauses
// and the facts about the published tables that are evaluated on every run.
// ---------------------------------------------------------------------------

// ----- encoders and decoders without an end-of-input flag ------------------

/// Only Big5 looks ahead, so for every other encoding the flag is immaterial.
pub proof fn estep_end_free(e: EEnc, s: Seq<char>, i: int, end: bool)
    requires !(e is Big5)
    ensures estep(e, s, i, end) == estep(e, s, i, true), !(estep(e, s, i, end) is Wait)
{ reveal(estep); }
pub proof fn erun_end_free(e: EEnc, s: Seq<char>, i: int, j: int, end: bool)
    requires !(e is Big5)
    ensures erun(e, s, i, j, end) == erun(e, s, i, j, true)
    decreases j - i
{
    reveal_with_fuel(erun, 2);
    if i < j {
        estep_end_free(e, s, i, end);
        if estep(e, s, i, true) is Emit { if estep(e, s, i, true)->n >= 1 && i + estep(e, s, i, true)->n <= j { erun_end_free(e, s, i + estep(e, s, i, true)->n, j, end); } }
    }
}
/// The contract of an encoder that has no flag gives the clauses of a call in
/// the middle of a text.
pub proof fn thm_c09_no_flag(e: EEnc, s: Seq<char>, out: Seq<u8>, r: Seq<u8>, n: int, outlen: int, c: char, lo: int, hi: int, w: int)
    requires !(e is Big5)
    ensures enc_exact(e, s, true, out, r, n) ==> enc_exact(e, s, false, out, r, n),
        enc_stop(e, s, true, outlen, r.len() as int, n) ==> enc_stop(e, s, false, outlen, r.len() as int, n),
        enc_err(e, s, true, out, c, lo, hi, w) ==> enc_err(e, s, false, out, c, lo, hi, w),
{
    if enc_exact(e, s, true, out, r, n) {
        let k = choose|k: int| 0 <= k <= s.len() && n == #[trigger] off(s, k)
            && erun(e, s, 0, k, true) is Some && erun(e, s, 0, k, true)->0 =~= r && front(out, r.len() as int, r);
        erun_end_free(e, s, 0, k, false);
        assert(n == off(s, k));
    }
    if enc_stop(e, s, true, outlen, r.len() as int, n) {
        let k = choose|k: int| 0 <= k <= s.len() && n == #[trigger] off(s, k) && estop(e, s, k, true, outlen - r.len());
        estep_end_free(e, s, k, false);
        estep_end_free(e, s, k, true);
        assert(n == off(s, k));
    }
    if enc_err(e, s, true, out, c, lo, hi, w) {
        let k = choose|k: int| 0 <= k < s.len() && lo == #[trigger] off(s, k) && hi == off(s, k) + clen(s[k])
            && c == s[k] && estep(e, s, k, true) == EStep::Bad
            && 0 <= w <= out.len() && erun(e, s, 0, k, true) is Some && erun(e, s, 0, k, true)->0 =~= out.subrange(0, w);
        erun_end_free(e, s, 0, k, false);
        estep_end_free(e, s, k, false);
        assert(lo == off(s, k));
    }
}
/// No byte of a single-byte encoding is incomplete.
pub proof fn thm_c10_no_flag(d: DEnc, b: Seq<u8>, n: int, room: int, out: Seq<u8>, lo: int, w: int)
    requires d is Sb, 0 <= n <= b.len()
    ensures dstop(d, b, n, true, room) ==> dstop(d, b, n, false, room),
        dec_err(d, b, true, out, lo, w) ==> dec_err(d, b, false, out, lo, w),
{ reveal(dstep); }

// ----- pairs of an encoder and a decoder -----------------------------------

/// Facts about a pair of single-byte tables (evaluated completely on every
/// run, for each of the published mappings).
pub open spec fn inv1(et: Seq<(char, u8)>, dt: Seq<char>) -> bool {
    &&& sorted1(et)
    &&& dt.len() == 128
    &&& forall|i: int| 0 <= i < et.len() ==> (#[trigger] et[i]).1 >= 0x80 && dt[et[i].1 as int - 0x80] == et[i].0
            && et[i].0 != REPL && et[i].0 as u32 >= 0x80
    &&& forall|p: int| 0 <= p < 128 && #[trigger] dt[p] != REPL ==> dt[p] as u32 >= 0x80 && has1(et, dt[p]) && get1(et, dt[p]) == p + 0x80
}
pub open spec fn b5_last(c: char) -> bool {
    let v = c as u32;
    v == 0x2550 || v == 0x255E || v == 0x2561 || v == 0x256A || v == 0x5341 || v == 0x5345
}
/// Big5: every entry of the encode table is the first (for six characters the
/// last) pointer of its character in the index, and every character of the
/// index has an entry.
pub open spec fn inv_b5(et: Seq<(char, [u8; 2])>, dt: Seq<char>) -> bool {
    &&& sorted2(et)
    &&& forall|i: int| 0 <= i < et.len() ==> {
            let b = (#[trigger] et[i]).1@;
            let p = b5_ptr(b[0], b[1]);
            &&& 0x81 <= b[0] <= 0xFE && b5_trail(b[1])
            &&& 0 <= p < dt.len() && dt[p] == et[i].0 && et[i].0 != REPL && et[i].0 as u32 >= 0x80
            &&& p != 1133 && p != 1135 && p != 1164 && p != 1166
            &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == et[i].0 ==> if b5_last(et[i].0) { q <= p } else { p <= q }
        }
    &&& forall|p: int| 0 <= p < dt.len() && #[trigger] dt[p] != REPL ==> dt[p] as u32 >= 0x80 && has2(et, dt[p])
}
/// A character that Shift JIS does not encode through the index.
pub open spec fn sj_direct(c: char) -> bool {
    let v = c as u32;
    v <= 0x80 || v == 0xA5 || v == 0x203E || v == 0x2212 || 0xFF61 <= v <= 0xFF9F || 0xE000 <= v <= 0xE757
}
pub open spec fn inv_sj(et: Seq<(char, [u8; 2])>, dt: Seq<char>) -> bool {
    &&& sorted2(et)
    &&& forall|i: int| 0 <= i < et.len() ==> {
            let b = (#[trigger] et[i]).1@;
            let p = sj_ptr(b[0], b[1]);
            &&& (0x81 <= b[0] <= 0x9F || 0xE0 <= b[0] <= 0xFC) && sj_trail(b[1])
            &&& 0 <= p < dt.len() && dt[p] == et[i].0 && et[i].0 != REPL && !sj_direct(et[i].0)
            &&& !(8272 <= p <= 8835) && !(8836 <= p <= 10715)
            &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == et[i].0 ==> p <= q || 8272 <= q <= 8835
        }
    &&& forall|p: int| 0 <= p < dt.len() && !(8272 <= p <= 8835) && #[trigger] dt[p] != REPL ==> has2(et, dt[p])
}

pub open spec fn is_utf(e: EEnc) -> bool { e is Utf8 || e is Utf16 || e is Utf32 }
pub open spec fn is_utf_d(d: DEnc) -> bool { d is Utf8 || d is Utf16 || d is Utf32 }

pub open spec fn dtab(d: DEnc) -> Seq<char> {
    match d { DEnc::Sb { tab } => tab, DEnc::Big5 { tab } => tab, DEnc::Sjis { tab } => tab, _ => Seq::empty() }
}
pub open spec fn matched(e: EEnc, d: DEnc) -> bool {
    match e {
        EEnc::Utf8 => d == DEnc::Utf8,
        EEnc::Utf16 { be } => d == (DEnc::Utf16 { be }),
        EEnc::Utf32 { be } => d == (DEnc::Utf32 { be }),
        EEnc::Sb { tab } => d is Sb && inv1(tab, dtab(d)),
        EEnc::Big5 { tab } => d is Big5 && inv_b5(tab, dtab(d)),
        EEnc::Sjis { tab } => d is Sjis && inv_sj(tab, dtab(d)),
    }
}

pub proof fn lemma_inv1(et: Seq<(char, u8)>, dt: Seq<char>, c: char)
    requires inv1(et, dt), has1(et, c)
    ensures get1(et, c) >= 0x80, dt[get1(et, c) as int - 0x80] == c, c != REPL, c as u32 >= 0x80
{
    reveal(has1); reveal(get1);
    let i = choose|i: int| 0 <= i < et.len() && (#[trigger] et[i]).0 == c;
    assert(et[i].0 == c);
}
pub proof fn lemma_inv1_back(et: Seq<(char, u8)>, dt: Seq<char>, p: int)
    requires inv1(et, dt), 0 <= p < 128, dt[p] != REPL
    ensures has1(et, dt[p]), dt[p] as u32 >= 0x80, get1(et, dt[p]) == p + 0x80
{ }
pub proof fn lemma_inv_b5(et: Seq<(char, [u8; 2])>, dt: Seq<char>, c: char)
    requires inv_b5(et, dt), has2(et, c)
    ensures ({
        let b = get2(et, c);
        let p = b5_ptr(b[0], b[1]);
        &&& b.len() == 2 && 0x81 <= b[0] <= 0xFE && b5_trail(b[1])
        &&& 0 <= p < dt.len() && dt[p] == c && c != REPL && c as u32 >= 0x80
        &&& p != 1133 && p != 1135 && p != 1164 && p != 1166
        &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == c ==> if b5_last(c) { q <= p } else { p <= q }
    })
{
    reveal(has2); reveal(get2);
    let i = choose|i: int| 0 <= i < et.len() && (#[trigger] et[i]).0 == c;
    assert(et[i].0 == c);
}
pub proof fn lemma_inv_sj(et: Seq<(char, [u8; 2])>, dt: Seq<char>, c: char)
    requires inv_sj(et, dt), has2(et, c)
    ensures ({
        let b = get2(et, c);
        let p = sj_ptr(b[0], b[1]);
        &&& b.len() == 2 && (0x81 <= b[0] <= 0x9F || 0xE0 <= b[0] <= 0xFC) && sj_trail(b[1])
        &&& 0 <= p < dt.len() && dt[p] == c && c != REPL && !sj_direct(c)
        &&& !(8272 <= p <= 8835) && !(8836 <= p <= 10715)
        &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == c ==> p <= q || 8272 <= q <= 8835
    })
{
    reveal(has2); reveal(get2);
    let i = choose|i: int| 0 <= i < et.len() && (#[trigger] et[i]).0 == c;
    assert(et[i].0 == c);
}

// ----- steps ---------------------------------------------------------------

/// `x` stands in `b` at `p`.
pub open spec fn at(b: Seq<u8>, p: int, x: Seq<u8>) -> bool {
    0 <= p && p + x.len() <= b.len() && b.subrange(p, p + x.len()) == x
}
pub proof fn at_idx(b: Seq<u8>, p: int, x: Seq<u8>, j: int)
    requires at(b, p, x), 0 <= j < x.len()
    ensures b[p + j] == x[j]
{ assert(b.subrange(p, p + x.len())[j] == b[p + j]); }

/// A character whose code means another character.
pub open spec fn folded(e: EEnc, c: char) -> bool {
    e is Sjis && (c as u32 == 0xA5 || c as u32 == 0x203E || c as u32 == 0x2212)
}

pub proof fn step_u16(be: bool, c: char, b: Seq<u8>, p: int)
    requires at(b, p, u16c(be, c))
    ensures dstep_utf16(be, b, p) == (DStep::Emit { n: u16c(be, c).len() as int, t: t1(c) })
{
    reveal(u16c); reveal(bytes2);
    let x = u16c(be, c);
    let v = c as u32 as int;
    at_idx(b, p, x, 0); at_idx(b, p, x, 1);
    assert(b[p + 0] == b[p]);
    if v >= 0x10000 {
        at_idx(b, p, x, 2); at_idx(b, p, x, 3);
        let w = v - 0x10000;
        let h = 0xD800 + w / 1024;
        let l = 0xDC00 + w % 1024;
        assert(0xD800 <= h < 0xDC00);
        assert(unit2(be, b, p) == h);
        assert(unit2(be, b, p + 2) == l);
        assert(0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00) == v);
    } else {
        assert(unit2(be, b, p) == v);
        assert(scalar(v));
    }
}
pub proof fn bytes4_join(be: bool, v: int)
    requires 0 <= v < 0x110000
    ensures unit4(be, bytes4(be, v), 0) == v
{
    reveal(bytes4);
    let a = v / 16777216;
    assert(a == 0);
    assert(v / 65536 < 256);
    assert(v == (v / 65536) * 65536 + ((v / 256) % 256) * 256 + v % 256) by {
        assert(v / 256 == (v / 65536) * 256 + (v / 256) % 256);
    }
}
pub proof fn step_u32(be: bool, c: char, b: Seq<u8>, p: int)
    requires at(b, p, bytes4(be, c as u32 as int))
    ensures dstep_utf32(be, b, p) == (DStep::Emit { n: 4, t: t1(c) })
{
    let v = c as u32 as int;
    let x = bytes4(be, v);
    b_bytes4_len(be, v);
    at_idx(b, p, x, 0); at_idx(b, p, x, 1); at_idx(b, p, x, 2); at_idx(b, p, x, 3);
    assert(b[p + 0] == b[p]);
    bytes4_join(be, v);
    assert(unit4(be, b, p) == unit4(be, x, 0));
    assert(scalar(v));
}

pub proof fn bytes4_split(be: bool, b: Seq<u8>, p: int)
    requires 0 <= p, p + 4 <= b.len()
    ensures bytes4(be, unit4(be, b, p)) == b.subrange(p, p + 4)
{
    reveal(bytes4);
    let v = unit4(be, b, p);
    let (x3, x2, x1, x0) = if be { (b[p] as int, b[p + 1] as int, b[p + 2] as int, b[p + 3] as int) }
        else { (b[p + 3] as int, b[p + 2] as int, b[p + 1] as int, b[p] as int) };
    assert(v == x3 * 16777216 + x2 * 65536 + x1 * 256 + x0);
    assert(v % 256 == x0);
    assert(v / 256 == x3 * 65536 + x2 * 256 + x1);
    assert(v / 65536 == x3 * 256 + x2);
    assert(v / 16777216 == x3);
    assert(bytes4(be, v) =~= b.subrange(p, p + 4));
}

/// Decoding inverts one step of encoding.
pub proof fn step_back(e: EEnc, d: DEnc, s: Seq<char>, i: int, b: Seq<u8>, p: int)
    requires matched(e, d), 0 <= i < s.len(), estep(e, s, i, true) is Emit, at(b, p, estep(e, s, i, true)->b), !folded(e, s[i])
    ensures ({
        let n = estep(e, s, i, true)->n;
        let x = estep(e, s, i, true)->b;
        &&& 1 <= n && i + n <= s.len() && x.len() >= 1
        &&& dstep(d, b, p) == (DStep::Emit { n: x.len() as int, t: s.subrange(i, i + n) })
    })
{
    reveal(estep); reveal(dstep);
    broadcast use {b_u8c_len, b_bytes4_len, b_bytes2_len, b_get2_len, b_sjis_ptr_bytes};
    let c = s[i];
    let x = estep(e, s, i, true)->b;
    assert(s.subrange(i, i + 1) =~= t1(c));
    if e is Utf16 || e is Utf32 {} else { at_idx(b, p, x, 0); }
    assert(b[p + 0] == b[p]);
    match e {
        EEnc::Utf8 => {
            assert forall|j: int| 0 <= j < clen(c) implies #[trigger] b[p + j] == u8c(c)[j] by { at_idx(b, p, x, j); }
            lemma_dstep_u8c(b, p, c);
        }
        EEnc::Utf16 { be } => { b_u16c(be, c); step_u16(be, c, b, p); }
        EEnc::Utf32 { be } => { step_u32(be, c, b, p); }
        EEnc::Sb { tab } => {
            if c as u32 >= 0x80 { lemma_inv1(tab, dtab(d), c); }
        }
        EEnc::Big5 { tab } => {
            if c as u32 >= 0x80 {
                at_idx(b, p, x, 1);
                if estep(e, s, i, true)->n == 2 {
                    assert(s.subrange(i, i + 2) =~= t2(c, s[i + 1]));
                } else {
                    lemma_inv_b5(tab, dtab(d), c);
                }
            }
        }
        EEnc::Sjis { tab } => {
            let v = c as u32 as int;
            if v <= 0x80 || 0xFF61 <= v <= 0xFF9F {
            } else if 0xE000 <= v <= 0xE757 {
                b_sjis_ptr_bytes(v - 0xE000 + 8836);
                at_idx(b, p, x, 1);
                let q = v - 0xE000 + 8836;
                assert(q == (q / 188) * 188 + q % 188);
            } else {
                at_idx(b, p, x, 1);
                lemma_inv_sj(tab, dtab(d), c);
            }
        }
    }
}

/// One UTF-16 step, back to the bytes it came from.
pub proof fn step_forth_u16(be: bool, b: Seq<u8>, p: int, c: char)
    requires 0 <= p < b.len(), dstep_utf16(be, b, p) is Emit, dstep_utf16(be, b, p)->t[0] == c
    ensures ({
        let n = dstep_utf16(be, b, p)->n;
        n >= 1 && p + n <= b.len() && dstep_utf16(be, b, p)->t == t1(c) && u16c(be, c) == b.subrange(p, p + n)
    })
{
    reveal(u16c); reveal(bytes2);
    let n = dstep_utf16(be, b, p)->n;
    let u = unit2(be, b, p);
    assert(dstep_utf16(be, b, p)->t =~= t1(c));
    if n == 2 {
        assert(u / 256 * 256 + u % 256 == u);
        assert(u16c(be, c) =~= b.subrange(p, p + 2));
    } else {
        let w = unit2(be, b, p + 2);
        let v = 0x10000 + (u - 0xD800) * 1024 + (w - 0xDC00);
        assert(c as u32 == v);
        assert((v - 0x10000) / 1024 == u - 0xD800);
        assert((v - 0x10000) % 1024 == w - 0xDC00);
        assert(u16c(be, c) =~= b.subrange(p, p + 4));
    }
}

/// Encoding inverts one step of decoding (UTF-8, UTF-16, UTF-32, single byte).
pub proof fn step_forth(e: EEnc, d: DEnc, b: Seq<u8>, p: int, s: Seq<char>, i: int)
    requires matched(e, d), is_utf(e) || e is Sb, 0 <= p < b.len(), dstep(d, b, p) is Emit,
        0 <= i < s.len(), s[i] == dstep(d, b, p)->t[0],
    ensures ({
        let n = dstep(d, b, p)->n;
        let t = dstep(d, b, p)->t;
        &&& 1 <= n && p + n <= b.len() && t == t1(s[i])
        &&& estep(e, s, i, true) == (EStep::Emit { n: 1, b: b.subrange(p, p + n) })
    })
{
    reveal(estep); reveal(dstep);
    let n = dstep(d, b, p)->n;
    let t = dstep(d, b, p)->t;
    let c = s[i];
    assert(t =~= t1(c));
    match e {
        EEnc::Utf8 => { lemma_u8c_dstep(b, p); lemma_u8s_one(c); }
        EEnc::Utf16 { be } => {
            step_forth_u16(be, b, p, c);
        }
        EEnc::Utf32 { be } => {
            assert(c as u32 == unit4(be, b, p));
            bytes4_split(be, b, p);
        }
        EEnc::Sb { tab } => {
            if b[p] < 0x80 {
            } else {
                lemma_inv1_back(tab, dtab(d), b[p] as int - 0x80);
            }
            assert(b.subrange(p, p + 1) =~= seq![b[p]]);
        }
        _ => {}
    }
}

// ----- C15: what is encoded decodes to the same text -----------------------

pub proof fn run_back(e: EEnc, d: DEnc, s: Seq<char>, i: int, k: int, b: Seq<u8>, p: int)
    requires matched(e, d), 0 <= i <= k <= s.len(), erun(e, s, i, k, true) is Some,
        at(b, p, erun(e, s, i, k, true)->0), forall|j: int| i <= j < k ==> !folded(e, #[trigger] s[j]),
    ensures drun(d, b, p, p + erun(e, s, i, k, true)->0.len()) == Some(u8s(s.subrange(i, k)))
    decreases k - i
{
    let r = erun(e, s, i, k, true)->0;
    if i == k {
        lemma_erun_empty(e, s, i, true);
        lemma_drun_empty(d, b, p);
        reveal(u8s);
        assert(u8s(s.subrange(i, k)) =~= Seq::<u8>::empty());
    } else {
        erun_step(e, s, i, k, true);
        let n = estep(e, s, i, true)->n;
        let x = estep(e, s, i, true)->b;
        let r2 = erun(e, s, i + n, k, true)->0;
        assert(r == x + r2);
        assert(b.subrange(p, p + x.len()) =~= r.subrange(0, x.len() as int));
        assert(r.subrange(0, x.len() as int) =~= x);
        step_back(e, d, s, i, b, p);
        assert(b.subrange(p + x.len(), p + x.len() + r2.len()) =~= r.subrange(x.len() as int, r.len() as int));
        assert(r.subrange(x.len() as int, r.len() as int) =~= r2);
        run_back(e, d, s, i + n, k, b, p + x.len());
        assert(p + r.len() == p + x.len() + r2.len());
        drun_cons(d, b, p, p + r.len());
        lemma_u8s_add(s.subrange(i, i + n), s.subrange(i + n, k));
        assert(s.subrange(i, i + n) + s.subrange(i + n, k) =~= s.subrange(i, k));
    }
}

/// One call of an encoder on the whole of `s`, at the end of the text.
pub open spec fn whole_e(e: EEnc, s: Seq<char>, c: ECall) -> bool {
    ecall(e, s, c) && c.a == 0 && c.b == s.len() && c.end
}
pub open spec fn whole_d(d: DEnc, b: Seq<u8>, c: DCall) -> bool {
    dcall(d, b, c) && c.a == 0 && c.b == b.len() && c.end
}
pub proof fn whole_e_ok(e: EEnc, s: Seq<char>, c: ECall) -> (k: int)
    requires whole_e(e, s, c), c.res is Ok
    ensures 0 <= k <= s.len(), c.res->n == off(s, k), erun(e, s, 0, k, true) == Some(c.res->r),
        estop(e, s, k, true, c.old_len - c.res->r.len()), c.res->n == off(s, s.len() as int) ==> k == s.len(),
{
    let k = ecall_ok(e, s, c);
    lemma_off_step(s, 0);
    assert(s.subrange(0, s.len() as int) =~= s);
    if c.res->n == off(s, s.len() as int) { off_inj(s, k, s.len() as int); }
    k
}
pub proof fn whole_d_ok(d: DEnc, b: Seq<u8>, c: DCall)
    requires whole_d(d, b, c), c.res is Ok
    ensures 0 <= c.res->n <= b.len(), drun(d, b, 0, c.res->n) == Some(c.res->t),
        dstop(d, b, c.res->n, true, c.old_len - c.res->t.len()),
{
    dcall_ok(d, b, c);
    assert(b.subrange(0, b.len() as int) =~= b);
}

pub proof fn thm_c15_round_trip(e: EEnc, d: DEnc, s: Seq<char>, ec: ECall, dc: DCall)
    requires matched(e, d), forall|j: int| 0 <= j < s.len() ==> !folded(e, #[trigger] s[j]),
        // The text is encoded completely, without an error,
        whole_e(e, s, ec), ec.res is Ok, ec.res->n == off(s, s.len() as int),
        // and the bytes are decoded, with enough room for the text.
        whole_d(d, ec.res->r, dc), dc.old_len >= u8s(s).len(),
    ensures dc.res is Ok, dc.res->n == ec.res->r.len(), dc.res->t == u8s(s),
{
    let k = whole_e_ok(e, s, ec);
    let r = ec.res->r;
    assert(r.subrange(0, r.len() as int) =~= r);
    run_back(e, d, s, 0, k, r, 0);
    assert(s.subrange(0, k) =~= s);
    if dc.res is Err {
        dcall_err(d, r, dc);
        drun_unique(d, r, 0, dc.res->lo, r.len() as int);
    } else {
        whole_d_ok(d, r, dc);
        let n = dc.res->n;
        if n < r.len() {
            drun_unique(d, r, 0, n, r.len() as int);
            drun_split(d, r, 0, n, r.len() as int);
            drun_step(d, r, n, r.len() as int);
            assert(dc.res->t.len() + u8s(dstep(d, r, n)->t).len() <= u8s(s).len());
            dstep_len(d, r, n);
        }
    }
}
pub proof fn drun_split(d: DEnc, b: Seq<u8>, i: int, j: int, k: int)
    requires drun(d, b, i, j) is Some, drun(d, b, i, k) is Some, j <= k
    ensures drun(d, b, j, k) is Some, drun(d, b, i, k)->0 == drun(d, b, i, j)->0 + drun(d, b, j, k)->0
    decreases j - i
{
    reveal_with_fuel(drun, 2);
    if i == j {
        lemma_drun_empty(d, b, i);
        assert(Seq::<u8>::empty() + drun(d, b, j, k)->0 =~= drun(d, b, j, k)->0);
    } else {
        drun_step(d, b, i, j);
        drun_step(d, b, i, k);
        let m = i + dstep(d, b, i)->n;
        drun_split(d, b, m, j, k);
        assert(drun(d, b, i, k)->0 =~= drun(d, b, i, j)->0 + drun(d, b, j, k)->0);
    }
}
pub proof fn erun_split(e: EEnc, s: Seq<char>, i: int, j: int, k: int, end: bool)
    requires erun(e, s, i, j, end) is Some, erun(e, s, i, k, end) is Some, j <= k
    ensures erun(e, s, j, k, end) is Some, erun(e, s, i, k, end)->0 == erun(e, s, i, j, end)->0 + erun(e, s, j, k, end)->0
    decreases j - i
{
    reveal_with_fuel(erun, 2);
    if i == j {
        lemma_erun_empty(e, s, i, end);
        assert(Seq::<u8>::empty() + erun(e, s, j, k, end)->0 =~= erun(e, s, j, k, end)->0);
    } else {
        erun_step(e, s, i, j, end);
        erun_step(e, s, i, k, end);
        let m = i + estep(e, s, i, end)->n;
        erun_split(e, s, m, j, k, end);
        assert(erun(e, s, i, k, end)->0 =~= erun(e, s, i, j, end)->0 + erun(e, s, j, k, end)->0);
    }
}

// ----- C16: what decodes encodes to the same bytes -------------------------

/// The text that a run of a decoder means, and that it encodes to the run's bytes.
pub proof fn run_forth(e: EEnc, d: DEnc, b: Seq<u8>, p: int, q: int) -> (s: Seq<char>)
    requires matched(e, d), is_utf(e) || e is Sb, 0 <= p <= q <= b.len(), drun(d, b, p, q) is Some
    ensures drun(d, b, p, q) == Some(u8s(s)), erun(e, s, 0, s.len() as int, true) == Some(b.subrange(p, q))
    decreases q - p
{
    if p == q {
        let s = Seq::<char>::empty();
        lemma_drun_empty(d, b, p);
        lemma_erun_empty(e, s, 0, true);
        reveal(u8s);
        assert(b.subrange(p, q) =~= Seq::<u8>::empty());
        s
    } else {
        drun_step(d, b, p, q);
        let n = dstep(d, b, p)->n;
        let t = dstep(d, b, p)->t;
        let s2 = run_forth(e, d, b, p + n, q);
        let s = t + s2;
        reveal(dstep);
        assert(t.len() == 1) by { let z = t1(t[0]); assert(matched(e, d)); }
        assert(s[0] == t[0]);
        step_forth(e, d, b, p, s, 0);
        assert(s.subrange(1, s.len() as int) =~= s2);
        erun_shift(e, s, 1, 0, s2.len() as int);
        lemma_u8s_add(t, s2);
        erun_cons(e, s, 0, s.len() as int, true);
        assert(b.subrange(p, p + n) + b.subrange(p + n, q) =~= b.subrange(p, q));
        s
    }
}
/// A suffix encodes as it does on its own.
pub proof fn erun_shift(e: EEnc, s: Seq<char>, a: int, i: int, j: int)
    requires is_utf(e) || e is Sb, 0 <= a <= s.len(), 0 <= i <= j <= s.len() - a
    ensures erun(e, s, a + i, a + j, true) == erun(e, s.subrange(a, s.len() as int), i, j, true)
    decreases j - i
{
    reveal_with_fuel(erun, 2);
    if i < j {
        let x = s.subrange(a, s.len() as int);
        reveal(estep);
        assert(x[i] == s[a + i]);
        assert(estep(e, s, a + i, true) == estep(e, x, i, true));
        if estep(e, x, i, true) is Emit {
            let n = estep(e, x, i, true)->n;
            if n >= 1 && i + n <= j { erun_shift(e, s, a, i + n, j); }
        }
    }
}

pub proof fn thm_c16_round_trip(e: EEnc, d: DEnc, b: Seq<u8>, dc: DCall, s: Seq<char>, ec: ECall)
    requires matched(e, d), is_utf(e) || e is Sb,
        // The bytes are decoded completely, without an error, to the text s,
        whole_d(d, b, dc), dc.res is Ok, dc.res->n == b.len(), dc.res->t == u8s(s),
        // and that text is encoded, with enough room for the bytes.
        whole_e(e, s, ec), ec.old_len >= b.len(),
    ensures ec.res is Ok, ec.res->n == off(s, s.len() as int), ec.res->r == b,
{
    whole_d_ok(d, b, dc);
    let x = run_forth(e, d, b, 0, b.len() as int);
    u8s_inj(s, x);
    assert(b.subrange(0, b.len() as int) =~= b);
    let m = s.len() as int;
    lemma_off_step(s, 0);
    if ec.res is Err {
        let k = ecall_err(e, s, ec);
        erun_unique(e, s, 0, k, m, true);
    } else {
        let k = whole_e_ok(e, s, ec);
        if k < m {
            erun_unique(e, s, 0, k, m, true);
            erun_split(e, s, 0, k, m, true);
            erun_step(e, s, k, m, true);
            assert(ec.res->r.len() + estep(e, s, k, true)->b.len() <= b.len());
        }
    }
}

// ----- C11: UTF-8, UTF-16 and UTF-32 ---------------------------------------

/// The form of one code point in a Unicode encoding form.
pub open spec fn ucode(e: EEnc, c: char) -> Seq<u8> {
    match e { EEnc::Utf16 { be } => u16c(be, c), EEnc::Utf32 { be } => bytes4(be, c as u32 as int), _ => u8c(c) }
}
/// The form of a text.
pub open spec fn uform(e: EEnc, s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { uform(e, s.drop_last()) + ucode(e, s.last()) }
}
pub proof fn erun_uform(e: EEnc, s: Seq<char>, k: int)
    requires is_utf(e), 0 <= k <= s.len()
    ensures erun(e, s, 0, k, true) == Some(uform(e, s.take(k))),
        k < s.len() ==> estep(e, s, k, true) == (EStep::Emit { n: 1, b: ucode(e, s[k]) }),
    decreases k
{
    reveal(estep);
    if k == 0 { lemma_erun_empty(e, s, 0, true); }
    else {
        erun_uform(e, s, k - 1);
        lemma_erun_snoc(e, s, 0, k - 1, true);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
    }
}

/// Encoding never fails and writes the form of the text it consumes, as far
/// as there is room.
pub proof fn thm_c11_encode(e: EEnc, s: Seq<char>, c: ECall) -> (k: int)
    requires is_utf(e), whole_e(e, s, c)
    ensures c.res is Ok, 0 <= k <= s.len(), c.res->n == off(s, k), c.res->r == uform(e, s.take(k)),
        k < s.len() ==> c.res->r.len() + ucode(e, s[k]).len() > c.old_len,
        c.old_len >= uform(e, s).len() ==> k == s.len(),
{
    if c.res is Err { let k = ecall_err(e, s, c); erun_uform(e, s, k); }
    let k = whole_e_ok(e, s, c);
    erun_uform(e, s, k);
    if k < s.len() {
        let m = s.len() as int;
        erun_uform(e, s, m);
        assert(s.take(m) =~= s);
        erun_split(e, s, 0, k, m, true);
        erun_step(e, s, k, m, true);
    }
    k
}
pub open spec fn e_of(d: DEnc) -> EEnc {
    match d { DEnc::Utf16 { be } => EEnc::Utf16 { be }, DEnc::Utf32 { be } => EEnc::Utf32 { be }, _ => EEnc::Utf8 }
}
/// What decodes is the form of a text, and decodes to that text ...
pub proof fn thm_c11_decode_sound(d: DEnc, b: Seq<u8>, c: DCall) -> (x: Seq<char>)
    requires is_utf_d(d), whole_d(d, b, c), c.res is Ok
    ensures 0 <= c.res->n <= b.len(), b.subrange(0, c.res->n) == uform(e_of(d), x), c.res->t == u8s(x),
{
    whole_d_ok(d, b, c);
    let x = run_forth(e_of(d), d, b, 0, c.res->n);
    erun_uform(e_of(d), x, x.len() as int);
    assert(x.take(x.len() as int) =~= x);
    x
}
/// ... the form of every text is accepted ...
pub proof fn thm_c11_decode_complete(d: DEnc, x: Seq<char>, c: DCall)
    requires is_utf_d(d), whole_d(d, uform(e_of(d), x), c), c.old_len >= u8s(x).len()
    ensures c.res is Ok, c.res->n == uform(e_of(d), x).len(), c.res->t == u8s(x),
{
    let e = e_of(d);
    let b = uform(e, x);
    let m = x.len() as int;
    erun_uform(e, x, m);
    assert(x.take(m) =~= x);
    assert(x.subrange(0, m) =~= x);
    assert(b.subrange(0, b.len() as int) =~= b);
    run_back(e, d, x, 0, m, b, 0);
    if c.res is Err {
        dcall_err(d, b, c);
        drun_unique(d, b, 0, c.res->lo, b.len() as int);
    } else {
        whole_d_ok(d, b, c);
        let n = c.res->n;
        if n < b.len() {
            drun_unique(d, b, 0, n, b.len() as int);
            drun_split(d, b, 0, n, b.len() as int);
            drun_step(d, b, n, b.len() as int);
            dstep_len(d, b, n);
            assert(c.res->t.len() + u8s(dstep(d, b, n)->t).len() <= u8s(x).len());
        }
    }
}
/// ... and what is reported as an error is not the form of any text.
pub proof fn thm_c11_decode_rejects(d: DEnc, b: Seq<u8>, c: DCall, x: Seq<char>)
    requires is_utf_d(d), whole_d(d, b, c), c.res is Err
    ensures b != uform(e_of(d), x)
{
    if b == uform(e_of(d), x) {
        let e = e_of(d);
        let m = x.len() as int;
        erun_uform(e, x, m);
        assert(x.take(m) =~= x);
        assert(b.subrange(0, b.len() as int) =~= b);
        run_back(e, d, x, 0, m, b, 0);
        dcall_err(d, b, c);
        drun_unique(d, b, 0, c.res->lo, b.len() as int);
    }
}

// ----- C12: code charts ----------------------------------------------------

/// The character the chart assigns to a byte.
pub open spec fn chart(dt: Seq<char>, b: u8) -> Option<char> {
    if b < 0x80 { Some(b as char) } else if dt[b as int - 0x80] == REPL { None } else { Some(dt[b as int - 0x80]) }
}
pub proof fn thm_c12_decode(dt: Seq<char>, b: Seq<u8>, i: int)
    requires dt.len() == 128, 0 <= i < b.len()
    ensures dstep(DEnc::Sb { tab: dt }, b, i) == match chart(dt, b[i]) {
        Some(c) => DStep::Emit { n: 1, t: t1(c) },
        None => DStep::Bad,
    }
{ reveal(dstep); }
pub proof fn thm_c12_encode(et: Seq<(char, u8)>, dt: Seq<char>, s: Seq<char>, i: int)
    requires inv1(et, dt), 0 <= i < s.len()
    ensures match estep(EEnc::Sb { tab: et }, s, i, true) {
        EStep::Emit { n, b } => n == 1 && b.len() == 1 && chart(dt, b[0]) == Some(s[i])
            && forall|y: u8| chart(dt, y) == Some(s[i]) ==> y == b[0],
        EStep::Bad => forall|y: u8| chart(dt, y) != Some(s[i]),
        EStep::Wait => false,
    }
{
    reveal(estep);
    let c = s[i];
    if c as u32 >= 0x80 && has1(et, c) { lemma_inv1(et, dt, c); }
    assert forall|y: u8| chart(dt, y) == Some(c) implies (c as u32) < 0x80 && y == c as u32 as u8 || has1(et, c) && y == get1(et, c) by {
        if y >= 0x80 { lemma_inv1_back(et, dt, y as int - 0x80); }
    }
}
/// US-ASCII: an empty encode table, and nothing assigned above 0x7F.
pub proof fn thm_c12_ascii()
    ensures inv1(Seq::<(char, u8)>::empty(), ascii_tab())
{ }

/// One call of an encoder: every byte written is the one the chart gives, and
/// an error is a character the chart has no byte for.
pub proof fn thm_c12_call_encode(e: EEnc, d: DEnc, s: Seq<char>, c: ECall)
    requires e is Sb, matched(e, d), whole_e(e, s, c)
    ensures match c.res {
        ERes::Ok { r, n } => r.len() <= s.len() && n == off(s, r.len() as int)
            && (forall|j: int| 0 <= j < r.len() ==> chart(dtab(d), #[trigger] r[j]) == Some(s[j]))
            && (r.len() < s.len() ==> r.len() == c.old_len),
        ERes::Err { c: ch, lo, hi, w } => 0 <= w < s.len() && ch == s[w] && lo == off(s, w) && hi == off(s, w + 1)
            && (forall|y: u8| chart(dtab(d), y) != Some(ch))
            && forall|j: int| 0 <= j < w ==> chart(dtab(d), #[trigger] c.out[j]) == Some(s[j]),
    }
{
    let tab = match e { EEnc::Sb { tab } => tab, _ => Seq::empty() };
    lemma_off_step(s, 0);
    if c.res is Ok {
        let k = whole_e_ok(e, s, c);
        erun_chart(e, d, s, k);
        if k < s.len() {
            thm_c12_encode(tab, dtab(d), s, k);
            front_len(e, s, c);
        }
    } else {
        let k = ecall_err(e, s, c);
        erun_chart(e, d, s, k);
        thm_c12_encode(tab, dtab(d), s, k);
        lemma_off_step(s, k);
        let w = c.res->w;
        assert(ecall(e, s, c));
        assert(c.out.subrange(0, w).len() == k);
        assert forall|j: int| 0 <= j < w implies chart(dtab(d), #[trigger] c.out[j]) == Some(s[j]) by { assert(c.out.subrange(0, w)[j] == c.out[j]); }
    }
}
pub proof fn front_len(e: EEnc, s: Seq<char>, c: ECall)
    requires ecall(e, s, c), c.res is Ok
    ensures c.res->r.len() <= c.old_len
{ }
pub proof fn erun_chart(e: EEnc, d: DEnc, s: Seq<char>, k: int)
    requires e is Sb, matched(e, d), 0 <= k <= s.len(), erun(e, s, 0, k, true) is Some
    ensures erun(e, s, 0, k, true)->0.len() == k,
        forall|j: int| 0 <= j < k ==> chart(dtab(d), #[trigger] erun(e, s, 0, k, true)->0[j]) == Some(s[j]),
    decreases k
{
    let tab = match e { EEnc::Sb { tab } => tab, _ => Seq::empty() };
    if k == 0 { lemma_erun_empty(e, s, 0, true); }
    else {
        sb_prefix(e, s, 0, k);
        erun_chart(e, d, s, k - 1);
        thm_c12_encode(tab, dtab(d), s, k - 1);
        lemma_erun_snoc(e, s, 0, k - 1, true);
    }
}
/// A single-byte run can be cut before its last character.
pub proof fn sb_prefix(e: EEnc, s: Seq<char>, i: int, k: int)
    requires e is Sb, 0 <= i < k <= s.len(), erun(e, s, i, k, true) is Some
    ensures erun(e, s, i, k - 1, true) is Some, estep(e, s, k - 1, true) is Emit, estep(e, s, k - 1, true)->n == 1
    decreases k - i
{
    reveal(estep);
    erun_step(e, s, i, k, true);
    if i + 1 == k { lemma_erun_empty(e, s, i, true); }
    else { sb_prefix(e, s, i + 1, k); erun_cons(e, s, i, k - 1, true); }
}
/// One call of a decoder, likewise.
pub proof fn thm_c12_call_decode(d: DEnc, b: Seq<u8>, c: DCall, y: Seq<char>)
    requires d is Sb, whole_d(d, b, c), c.res is Ok ==> c.res->t == u8s(y)
    ensures match c.res {
        DRes::Ok { t, n } => 0 <= n <= b.len() && y.len() == n && forall|j: int| 0 <= j < n ==> chart(dtab(d), #[trigger] b[j]) == Some(y[j]),
        DRes::Err { lo, hi, w } => 0 <= lo < b.len() && chart(dtab(d), b[lo]) is None && forall|j: int| 0 <= j < lo ==> chart(dtab(d), #[trigger] b[j]) is Some,
    }
{
    if c.res is Ok {
        whole_d_ok(d, b, c);
        let x = drun_chart(d, b, c.res->n);
        u8s_inj(x, y);
    } else {
        dcall_err(d, b, c);
        thm_c12_decode(dtab(d), b, c.res->lo);
        let x = drun_chart(d, b, c.res->lo);
    }
}
pub proof fn drun_chart(d: DEnc, b: Seq<u8>, n: int) -> (x: Seq<char>)
    requires d is Sb, dwf(d), 0 <= n <= b.len(), drun(d, b, 0, n) is Some
    ensures x.len() == n, drun(d, b, 0, n)->0 == u8s(x), forall|j: int| 0 <= j < n ==> chart(dtab(d), #[trigger] b[j]) == Some(x[j]),
    decreases n
{
    if n == 0 {
        lemma_drun_empty(d, b, 0);
        reveal(u8s);
        assert(u8s(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        Seq::empty()
    } else {
        dsb_prefix(d, b, 0, n);
        let x0 = drun_chart(d, b, n - 1);
        thm_c12_decode(dtab(d), b, n - 1);
        lemma_drun_snoc(d, b, 0, n - 1);
        let c = chart(dtab(d), b[n - 1])->0;
        lemma_u8s_add(x0, t1(c));
        let x = x0 + t1(c);
        x
    }
}
pub proof fn dsb_prefix(d: DEnc, b: Seq<u8>, i: int, n: int)
    requires d is Sb, dwf(d), 0 <= i < n <= b.len(), drun(d, b, i, n) is Some
    ensures drun(d, b, i, n - 1) is Some, dstep(d, b, n - 1) is Emit, dstep(d, b, n - 1)->n == 1
    decreases n - i
{
    reveal(dstep);
    drun_step(d, b, i, n);
    if i + 1 == n { lemma_drun_empty(d, b, i); }
    else { dsb_prefix(d, b, i + 1, n); drun_cons(d, b, i, n - 1); }
}

// ----- C13: Big5 -----------------------------------------------------------

/// What the WHATWG Big5 index (with its four two-character codes) assigns to
/// the bytes at i.
pub proof fn thm_c13_decode(dt: Seq<char>, b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures ({
        let st = dstep(DEnc::Big5 { tab: dt }, b, i);
        let lead = 0x81 <= b[i] <= 0xFE;
        let pair = lead && i + 1 < b.len() && b5_trail(b[i + 1]);
        let p = b5_ptr(b[i], b[i + 1]);
        let v = b[i] as int * 256 + b[i + 1];
        &&& b[i] < 0x80 ==> st == one(1, b[i] as int)
        &&& pair && v == 0x8862 ==> st == (DStep::Emit { n: 2, t: t2('\u{CA}', '\u{304}') })
        &&& pair && v == 0x8864 ==> st == (DStep::Emit { n: 2, t: t2('\u{CA}', '\u{30C}') })
        &&& pair && v == 0x88A3 ==> st == (DStep::Emit { n: 2, t: t2('\u{EA}', '\u{304}') })
        &&& pair && v == 0x88A5 ==> st == (DStep::Emit { n: 2, t: t2('\u{EA}', '\u{30C}') })
        &&& pair && v != 0x8862 && v != 0x8864 && v != 0x88A3 && v != 0x88A5 ==>
                st == (if 0 <= p < dt.len() && dt[p] != REPL { DStep::Emit { n: 2, t: t1(dt[p]) } } else { DStep::Bad })
        &&& b[i] >= 0x80 && !pair ==> st == (if lead && i + 1 >= b.len() { DStep::Incomplete } else { DStep::Bad })
    })
{ reveal(dstep); }
pub proof fn thm_c13_encode(et: Seq<(char, [u8; 2])>, dt: Seq<char>, s: Seq<char>, i: int)
    requires inv_b5(et, dt), 0 <= i < s.len()
    ensures ({
        let st = estep(EEnc::Big5 { tab: et }, s, i, true);
        let c = s[i];
        &&& (c as u32) < 0x80 ==> st == (EStep::Emit { n: 1, b: seq![c as u8] })
        &&& b5_base(c) && i + 1 < s.len() && b5_mark(s[i + 1]) ==> st == (EStep::Emit { n: 2, b: b5_pair(c, s[i + 1]) })
        &&& c as u32 >= 0x80 && !(b5_base(c) && i + 1 < s.len() && b5_mark(s[i + 1])) ==> match st {
                EStep::Emit { n, b } => {
                    let p = b5_ptr(b[0], b[1]);
                    &&& n == 1 && b.len() == 2 && 0x81 <= b[0] <= 0xFE && b5_trail(b[1]) && 0 <= p < dt.len() && dt[p] == c
                    &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == c ==> if b5_last(c) { q <= p } else { p <= q }
                },
                EStep::Bad => c == REPL || forall|q: int| 0 <= q < dt.len() ==> #[trigger] dt[q] != c,
                EStep::Wait => false,
            }
    })
{
    reveal(estep);
    if has2(et, s[i]) { lemma_inv_b5(et, dt, s[i]); }
}
pub proof fn thm_c13_pairs(a: char, m: char)
    requires b5_base(a), b5_mark(m)
    ensures b5_pair(a, m)[0] == 0x88, dstep_big5(Seq::empty(), b5_pair(a, m), 0) == (DStep::Emit { n: 2, t: t2(a, m) }),
{ }

// ----- C14: Shift JIS ------------------------------------------------------

pub proof fn thm_c14_decode(dt: Seq<char>, b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures ({
        let st = dstep(DEnc::Sjis { tab: dt }, b, i);
        let lead = 0x81 <= b[i] <= 0x9F || 0xE0 <= b[i] <= 0xFC;
        let pair = lead && i + 1 < b.len() && sj_trail(b[i + 1]);
        let p = sj_ptr(b[i], b[i + 1]);
        &&& b[i] <= 0x80 ==> st == one(1, b[i] as int)
        &&& 0xA1 <= b[i] <= 0xDF ==> st == one(1, 0xFF61 + (b[i] - 0xA1))
        &&& pair && 8836 <= p <= 10715 ==> st == one(2, 0xE000 + (p - 8836))
        &&& pair && !(8836 <= p <= 10715) ==> st == (if 0 <= p < dt.len() && dt[p] != REPL { DStep::Emit { n: 2, t: t1(dt[p]) } } else { DStep::Bad })
        &&& b[i] > 0x80 && !(0xA1 <= b[i] <= 0xDF) && !pair ==> st == (if lead && i + 1 >= b.len() { DStep::Incomplete } else { DStep::Bad })
    })
{ reveal(dstep); }
pub proof fn thm_c14_encode(et: Seq<(char, [u8; 2])>, dt: Seq<char>, s: Seq<char>, i: int)
    requires inv_sj(et, dt), 0 <= i < s.len()
    ensures ({
        let st = estep(EEnc::Sjis { tab: et }, s, i, true);
        let c = s[i];
        let v = c as u32 as int;
        &&& v <= 0x80 ==> st == (EStep::Emit { n: 1, b: seq![v as u8] })
        &&& v == 0xA5 ==> st == (EStep::Emit { n: 1, b: seq![0x5Cu8] })
        &&& v == 0x203E ==> st == (EStep::Emit { n: 1, b: seq![0x7Eu8] })
        &&& 0xFF61 <= v <= 0xFF9F ==> st == (EStep::Emit { n: 1, b: seq![(0xA1 + (v - 0xFF61)) as u8] })
        &&& 0xE000 <= v <= 0xE757 ==> st is Emit && st->n == 1 && st->b.len() == 2 && sj_trail(st->b[1])
                && (0x81 <= st->b[0] <= 0x9F || 0xE0 <= st->b[0] <= 0xFC) && sj_ptr(st->b[0], st->b[1]) == 8836 + (v - 0xE000)
        &&& !sj_direct(c) || v == 0x2212 ==> {
                let d = if v == 0x2212 { '\u{FF0D}' } else { c };
                match st {
                    EStep::Emit { n, b } => {
                        let p = sj_ptr(b[0], b[1]);
                        &&& n == 1 && b.len() == 2 && (0x81 <= b[0] <= 0x9F || 0xE0 <= b[0] <= 0xFC) && sj_trail(b[1])
                        &&& 0 <= p < dt.len() && dt[p] == d && !(8272 <= p <= 8835)
                        &&& forall|q: int| 0 <= q < dt.len() && #[trigger] dt[q] == d ==> p <= q || 8272 <= q <= 8835
                    },
                    EStep::Bad => d == REPL || forall|q: int| 0 <= q < dt.len() && !(8272 <= q <= 8835) ==> #[trigger] dt[q] != d,
                    EStep::Wait => false,
                }
            }
    })
{
    reveal(estep);
    let c = s[i];
    let v = c as u32 as int;
    let d = if v == 0x2212 { '\u{FF0D}' } else { c };
    if has2(et, d) { lemma_inv_sj(et, dt, d); }
    broadcast use {b_get2_len, b_sjis_ptr_bytes};
    if 0xE000 <= v <= 0xE757 {
        let q = v - 0xE000 + 8836;
        assert(q == (q / 188) * 188 + q % 188);
    }
}
