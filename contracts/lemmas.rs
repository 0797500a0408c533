// ---------------------------------------------------------------------------
// Lemmas used inside the function proofs.
// ---------------------------------------------------------------------------

pub proof fn lemma_get1(t: Seq<(char, u8)>, i: int)
    requires sorted1(t), 0 <= i < t.len()
    ensures has1(t, t[i].0), get1(t, t[i].0) == t[i].1
{
    reveal(has1); reveal(get1);
    let c = t[i].0;
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == c;
    assert(0 <= j < t.len() && t[j].0 == c);
    if i < j { assert((t[i].0 as u32) < (t[j].0 as u32)); }
    if j < i { assert((t[j].0 as u32) < (t[i].0 as u32)); }
}
pub proof fn lemma_get2(t: Seq<(char, [u8; 2])>, i: int)
    requires sorted2(t), 0 <= i < t.len()
    ensures has2(t, t[i].0), get2(t, t[i].0) == t[i].1@
{
    reveal(has2); reveal(get2);
    let c = t[i].0;
    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == c;
    assert(0 <= j < t.len() && t[j].0 == c);
    if i < j { assert((t[i].0 as u32) < (t[j].0 as u32)); }
    if j < i { assert((t[j].0 as u32) < (t[i].0 as u32)); }
}

pub proof fn lemma_off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures off(s, i) <= off(s, j), i < j ==> off(s, i) < off(s, j), off(s, i) >= i, off(s, j) - off(s, i) >= j - i
    decreases j
{
    reveal_with_fuel(off, 2);
    if i < j { lemma_off_mono(s, i, j - 1); }
    else if i > 0 { lemma_off_mono(s, i - 1, j - 1); }
}
pub proof fn lemma_off_skip(s: Seq<char>, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= s.len()
    ensures off(s.skip(p), n) == off(s, p + n) - off(s, p)
    decreases n
{
    reveal(off);
    if n > 0 { lemma_off_skip(s, p, n - 1); }
}
pub broadcast proof fn b_off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j
    ensures #[trigger] off(s, i) < #[trigger] off(s, j)
{ lemma_off_mono(s, i, j); }
pub broadcast proof fn b_off_nonneg(s: Seq<char>, i: int)
    ensures 0 <= #[trigger] off(s, i), i <= 0 ==> off(s, i) == 0
    decreases i
{ reveal(off); if i > 0 { b_off_nonneg(s, i - 1); } }

pub proof fn lemma_erun_snoc(e: EEnc, s: Seq<char>, i: int, k: int, end: bool)
    requires i <= k, erun(e, s, i, k, end) is Some, estep(e, s, k, end) is Emit, estep(e, s, k, end)->n >= 1
    ensures erun(e, s, i, k + estep(e, s, k, end)->n, end) == Some(erun(e, s, i, k, end)->0 + estep(e, s, k, end)->b)
    decreases k - i
{
    reveal_with_fuel(erun, 2);
    let n = estep(e, s, k, end)->n;
    let b = estep(e, s, k, end)->b;
    if i == k {
        assert(erun(e, s, k + n, k + n, end) == Some(Seq::<u8>::empty()));
        assert(b + Seq::<u8>::empty() =~= b);
        assert(Seq::<u8>::empty() + b =~= b);
    } else {
        let n0 = estep(e, s, i, end)->n;
        let b0 = estep(e, s, i, end)->b;
        lemma_erun_snoc(e, s, i + n0, k, end);
        let r = erun(e, s, i + n0, k, end)->0;
        assert(b0 + (r + b) =~= (b0 + r) + b);
    }
}

pub proof fn lemma_drun_snoc(d: DEnc, b: Seq<u8>, i: int, k: int)
    requires i <= k, drun(d, b, i, k) is Some, dstep(d, b, k) is Emit, dstep(d, b, k)->n >= 1
    ensures drun(d, b, i, k + dstep(d, b, k)->n) == Some(drun(d, b, i, k)->0 + u8s(dstep(d, b, k)->t))
    decreases k - i
{
    reveal_with_fuel(drun, 2);
    let n = dstep(d, b, k)->n;
    let t = u8s(dstep(d, b, k)->t);
    if i == k {
        assert(drun(d, b, k + n, k + n) == Some(Seq::<u8>::empty()));
        assert(t + Seq::<u8>::empty() =~= t);
        assert(Seq::<u8>::empty() + t =~= t);
    } else {
        let n0 = dstep(d, b, i)->n;
        let t0 = u8s(dstep(d, b, i)->t);
        lemma_drun_snoc(d, b, i + n0, k);
        let r = drun(d, b, i + n0, k)->0;
        assert(t0 + (r + t) =~= (t0 + r) + t);
    }
}

pub proof fn lemma_u8s_one(c: char)
    ensures u8s(t1(c)) == u8c(c)
{
    reveal_with_fuel(u8s, 2);
    assert(t1(c).drop_last() =~= Seq::<char>::empty());
    assert(Seq::<u8>::empty() + u8c(c) =~= u8c(c));
}
pub broadcast proof fn b_u8s_one(c: char)
    ensures #[trigger] u8s(t1(c)) == u8c(c)
{ lemma_u8s_one(c); }

pub proof fn lemma_u8s_two(c: char, d: char)
    ensures u8s(t2(c, d)) == u8c(c) + u8c(d)
{
    reveal_with_fuel(u8s, 2);
    assert(t2(c, d).drop_last() =~= t1(c));
    lemma_u8s_one(c);
}

pub proof fn lemma_u8s_add(a: Seq<char>, b: Seq<char>)
    ensures u8s(a + b) == u8s(a) + u8s(b)
    decreases b.len()
{
    reveal(u8s);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(u8s(a) + u8s(b) =~= u8s(a));
    } else {
        lemma_u8s_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(u8s(a) + u8s(b) =~= (u8s(a) + u8s(b.drop_last())) + u8c(b.last()));
    }
}

pub broadcast proof fn b_u8c_len(c: char)
    ensures (#[trigger] u8c(c)).len() == clen(c)
{ reveal(u8c); }

pub proof fn lemma_off_u8s(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures u8s(s.take(k)).len() == off(s, k)
    decreases k
{
    reveal(u8s); reveal(off); broadcast use b_u8c_len;
    if k > 0 {
        lemma_off_u8s(s, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
    }
}

/// Well-formedness is kept by appending the UTF-8 form of any text.
pub proof fn lemma_wf_add(b: Seq<u8>, t: Seq<char>)
    requires wf(b)
    ensures wf(b + u8s(t))
{
    let s = choose|s: Seq<char>| b =~= #[trigger] u8s(s);
    lemma_u8s_add(s, t);
    assert(b + u8s(t) =~= u8s(s + t));
}
pub proof fn lemma_wf_empty()
    ensures wf(Seq::<u8>::empty())
{ reveal(u8s); assert(Seq::<u8>::empty() =~= u8s(Seq::<char>::empty())); }

pub proof fn lemma_off_step(s: Seq<char>, k: int)
    requires 0 <= k
    ensures off(s, 0) == 0, off(s, k + 1) == off(s, k) + clen(s[k]), 0 <= off(s, k),
{ reveal_with_fuel(off, 2); b_off_nonneg(s, k); }

pub proof fn lemma_erun_empty(e: EEnc, s: Seq<char>, i: int, end: bool)
    ensures erun(e, s, i, i, end) == Some(Seq::<u8>::empty())
{ reveal(erun); }
pub proof fn lemma_drun_empty(d: DEnc, b: Seq<u8>, i: int)
    ensures drun(d, b, i, i) == Some(Seq::<u8>::empty())
{ reveal(drun); }

#[verifier::external_body]
pub proof fn ax_slice_len<T>(s: &[T])
    ensures s@.len() <= isize::MAX
{ }
#[verifier::external_body]
pub proof fn ax_str_len(s: &str)
    ensures off(s@, s@.len() as int) <= isize::MAX
{ }

/// At the head of an encoder loop that is about to take character k.
pub proof fn enc_head(e: EEnc, s: Seq<char>, k: int, end: bool)
    requires 0 <= k <= s.len(), erun(e, s, 0, k, end) is Some
    ensures
        off(s, k + 1) == off(s, k) + clen(s[k]), off(s, k) >= 0,
        off(s, k) <= off(s, s.len() as int),
        k < s.len() ==> off(s, k + 1) <= off(s, s.len() as int),
        k + 2 <= s.len() ==> off(s, k + 2) <= off(s, s.len() as int),
        k + 2 <= s.len() ==> off(s, k + 2) == off(s, k + 1) + clen(s[k + 1]),
        k < s.len() ==> match estep(e, s, k, end) {
            EStep::Emit { n, b } => n >= 1 ==> erun(e, s, 0, k + n, end) == Some(erun(e, s, 0, k, end)->0 + b),
            _ => true,
        },
{
    lemma_off_step(s, k);
    lemma_off_step(s, k + 1);
    lemma_off_mono(s, k, s.len() as int);
    if k + 1 <= s.len() { lemma_off_mono(s, k + 1, s.len() as int); }
    if k + 2 <= s.len() { lemma_off_mono(s, k + 2, s.len() as int); }
    if k < s.len() {
        if estep(e, s, k, end) is Emit { if estep(e, s, k, end)->n >= 1 { lemma_erun_snoc(e, s, 0, k, end); } }
    }
}
pub broadcast proof fn b_bytes2_len(be: bool, v: int)
    ensures (#[trigger] bytes2(be, v)).len() == 2
{ reveal(bytes2); }
pub broadcast proof fn b_bytes4_len(be: bool, v: int)
    ensures (#[trigger] bytes4(be, v)).len() == 4
{ reveal(bytes4); }
pub broadcast proof fn b_bytes2_at(be: bool, v: int)
    requires 0 <= v < 65536
    ensures (#[trigger] bytes2(be, v))[if be { 0int } else { 1 }] == v / 256, bytes2(be, v)[if be { 1int } else { 0 }] == v % 256
{ reveal(bytes2); }
pub broadcast proof fn b_bytes4_at(be: bool, v: int)
    requires 0 <= v < 0x110000
    ensures (#[trigger] bytes4(be, v))[if be { 0int } else { 3 }] == v / 16777216,
        bytes4(be, v)[if be { 1int } else { 2 }] == (v / 65536) % 256,
        bytes4(be, v)[if be { 2int } else { 1 }] == (v / 256) % 256,
        bytes4(be, v)[if be { 3int } else { 0 }] == v % 256,
{ reveal(bytes4); }
pub broadcast proof fn b_u16c(be: bool, c: char)
    ensures #[trigger] u16c(be, c) == (if (c as u32) < 0x10000 { bytes2(be, c as u32 as int) } else {
        let h = bytes2(be, 0xD800 + (c as u32 - 0x10000) / 1024);
        let l = bytes2(be, 0xDC00 + (c as u32 - 0x10000) % 1024);
        seq![h[0], h[1], l[0], l[1]] })
{ reveal(u16c); }
pub broadcast proof fn b_estep_utf8(s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Utf8, s, i, end) == (EStep::Emit { n: 1, b: u8c(s[i]) })
{ reveal(estep); }
pub broadcast proof fn b_estep_utf16(be: bool, s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Utf16 { be }, s, i, end) == (EStep::Emit { n: 1, b: u16c(be, s[i]) })
{ reveal(estep); }
pub broadcast proof fn b_estep_utf32(be: bool, s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Utf32 { be }, s, i, end) == (EStep::Emit { n: 1, b: bytes4(be, s[i] as u32 as int) })
{ reveal(estep); }
pub broadcast proof fn b_estep_sb(tab: Seq<(char, u8)>, s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Sb { tab }, s, i, end) == sb_code(tab, s[i])
{ reveal(estep); }
pub broadcast proof fn b_estep_big5(tab: Seq<(char, [u8; 2])>, s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Big5 { tab }, s, i, end) == big5_code(tab, s, i, end)
{ reveal(estep); }
pub broadcast proof fn b_estep_sjis(tab: Seq<(char, [u8; 2])>, s: Seq<char>, i: int, end: bool)
    ensures #[trigger] estep(EEnc::Sjis { tab }, s, i, end) == sjis_code(tab, s[i])
{ reveal(estep); }
pub broadcast proof fn b_get2_len(t: Seq<(char, [u8; 2])>, c: char)
    ensures (#[trigger] get2(t, c)).len() == 2
{ reveal(get2); }
pub broadcast proof fn b_sjis_ptr_bytes(p: int)
    ensures #[trigger] sjis_ptr_bytes(p) == seq![
        (p / 188 + (if p / 188 < 0x1F { 0x81int } else { 0xC1int })) as u8,
        (p % 188 + (if p % 188 < 0x3F { 0x40int } else { 0x41int })) as u8]
{ reveal(sjis_ptr_bytes); }
pub broadcast group enc_lemmas {
    b_bytes2_len, b_bytes2_at, b_bytes4_at, b_get2_len, b_sjis_ptr_bytes, b_bytes4_len, b_u16c, b_estep_utf8, b_estep_utf16, b_estep_utf32, b_estep_sb, b_estep_big5, b_estep_sjis,
}

/// While looking for the boundary at which the last consumed character ends.
pub proof fn enc_tail(s: Seq<char>, k: int, i: int)
    requires 0 <= k <= s.len(), i <= off(s, k), k == 0 || off(s, k - 1) < i, 0 <= i
    ensures is_off(s, i) <==> i == off(s, k), off(s, k) <= off(s, s.len() as int)
{
    broadcast use {b_off_mono, b_off_nonneg};
    lemma_off_mono(s, k, s.len() as int);
    if is_off(s, i) {
        let j = choose|j: int| 0 <= j <= s.len() && #[trigger] off(s, j) == i;
        if j < k { lemma_off_mono(s, j, k - 1); }
        if k < j { lemma_off_mono(s, k, j); }
    }
}

/// The number of characters before byte position i (a boundary).
pub open spec fn kof(s: Seq<char>, i: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == i }
pub proof fn lemma_kof(s: Seq<char>, k: int)
    ensures 0 <= k <= s.len() ==> kof(s, off(s, k)) == k
{
    if 0 <= k <= s.len() {
        let j = kof(s, off(s, k));
        assert(off(s, k) == off(s, k));
        assert(0 <= j <= s.len() && off(s, j) == off(s, k));
        if j < k { lemma_off_mono(s, j, k); }
        if k < j { lemma_off_mono(s, k, j); }
    }
}

// ----- decoders ------------------------------------------------------------

pub broadcast proof fn b_u8c_1(c: char)
    requires (c as u32) < 0x80
    ensures #[trigger] u8c(c) == seq![c as u32 as u8]
{ reveal(u8c); }
pub broadcast proof fn b_u8c_2(c: char)
    requires 0x80 <= (c as u32) < 0x800
    ensures #[trigger] u8c(c) == seq![(0xC0 + (c as u32) / 64) as u8, (0x80 + (c as u32) % 64) as u8]
{ reveal(u8c); }
pub broadcast proof fn b_u8s_two(c: char, d: char)
    ensures #[trigger] u8s(t2(c, d)) == u8c(c) + u8c(d)
{ lemma_u8s_two(c, d); }

pub broadcast proof fn b_dstep_utf8(b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Utf8, b, i) == dstep_utf8(b, i)
{ reveal(dstep); }
pub broadcast proof fn b_dstep_utf16(be: bool, b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Utf16 { be }, b, i) == dstep_utf16(be, b, i)
{ reveal(dstep); }
pub broadcast proof fn b_dstep_utf32(be: bool, b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Utf32 { be }, b, i) == dstep_utf32(be, b, i)
{ reveal(dstep); }
pub broadcast proof fn b_dstep_sb(tab: Seq<char>, b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Sb { tab }, b, i) == dstep_sb(tab, b, i)
{ reveal(dstep); }
pub broadcast proof fn b_dstep_big5(tab: Seq<char>, b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Big5 { tab }, b, i) == dstep_big5(tab, b, i)
{ reveal(dstep); }
pub broadcast proof fn b_dstep_sjis(tab: Seq<char>, b: Seq<u8>, i: int)
    ensures #[trigger] dstep(DEnc::Sjis { tab }, b, i) == dstep_sjis(tab, b, i)
{ reveal(dstep); }

/// The meaning of a run is a text, so its UTF-8 form is well formed.
pub proof fn lemma_drun_wf(d: DEnc, b: Seq<u8>, i: int, j: int)
    requires drun(d, b, i, j) is Some
    ensures wf(drun(d, b, i, j)->0)
    decreases j - i
{
    reveal_with_fuel(drun, 2);
    if i >= j { lemma_wf_empty(); }
    else {
        let n = dstep(d, b, i)->n;
        let t = dstep(d, b, i)->t;
        lemma_drun_wf(d, b, i + n, j);
        let r = drun(d, b, i + n, j)->0;
        let s = choose|s: Seq<char>| r =~= #[trigger] u8s(s);
        lemma_u8s_add(t, s);
        assert(u8s(t) + r =~= u8s(t + s));
    }
}
pub broadcast proof fn b_drun_wf(d: DEnc, b: Seq<u8>, i: int, j: int)
    requires #[trigger] drun(d, b, i, j) is Some
    ensures wf(drun(d, b, i, j)->0)
{ lemma_drun_wf(d, b, i, j); }
pub broadcast proof fn b_front_wf(out: Seq<u8>, n: int, x: Seq<u8>)
    requires #[trigger] front(out, n, x), wf(x)
    ensures wf(out.subrange(0, n)), out.subrange(0, n) == x
{ assert(out.subrange(0, n) =~= x); }
pub broadcast group dec_lemmas {
    b_u8c_len, b_u8c_1, b_u8c_2, b_u8s_one, b_u8s_two, b_drun_wf, b_front_wf,
    b_dstep_utf8, b_dstep_utf16, b_dstep_utf32, b_dstep_sb, b_dstep_big5, b_dstep_sjis,
}

/// At the head of a decoder loop, at byte p.
pub proof fn dec_head(d: DEnc, b: Seq<u8>, p: int)
    requires 0 <= p <= b.len(), drun(d, b, 0, p) is Some
    ensures
        p < b.len() ==> match dstep(d, b, p) {
            DStep::Emit { n, t } => n >= 1 ==> drun(d, b, 0, p + n) == Some(drun(d, b, 0, p)->0 + u8s(t)),
            _ => true,
        },
{
    if p < b.len() && dstep(d, b, p) is Emit { if dstep(d, b, p)->n >= 1 { lemma_drun_snoc(d, b, 0, p); } }
}
