// ---------------------------------------------------------------------------
// UTF-8: the arithmetic form u8c and the table 3-7 decoder are inverse, and
// character boundaries are where no continuation byte stands.
// ---------------------------------------------------------------------------

pub proof fn lemma_u8c_cont(c: char, j: int)
    requires 0 <= j < u8c(c).len()
    ensures cont(u8c(c)[j]) <==> j > 0, j == 0 ==> u8_starter(u8c(c)[0])
{
    reveal(u8c);
}

/// u8s(s) between off(s,k) and off(s,k+1) is u8c(s[k]).
pub proof fn lemma_u8s_at(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures
        u8s(s).len() == off(s, s.len() as int),
        off(s, k + 1) == off(s, k) + clen(s[k]), 0 <= off(s, k), off(s, k + 1) <= u8s(s).len(),
        u8c(s[k]).len() == clen(s[k]),
        u8s(s).subrange(off(s, k), off(s, k + 1)) == u8c(s[k]),
        u8s(s).subrange(0, off(s, k)) == u8s(s.take(k)),
        forall|j: int| 0 <= j < clen(s[k]) ==> #[trigger] u8s(s)[off(s, k) + j] == u8c(s[k])[j],
{
    broadcast use b_u8c_len;
    lemma_off_u8s(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lemma_off_u8s(s, k);
    lemma_off_u8s(s, k + 1);
    lemma_off_step(s, k);
    lemma_off_mono(s, k + 1, s.len() as int);
    lemma_u8s_add(s.take(k + 1), s.skip(k + 1));
    assert(s.take(k + 1) + s.skip(k + 1) =~= s);
    assert(s.take(k + 1) =~= s.take(k) + t1(s[k]));
    lemma_u8s_add(s.take(k), t1(s[k]));
    lemma_u8s_one(s[k]);
    assert(u8s(s).subrange(off(s, k), off(s, k + 1)) =~= u8c(s[k]));
    assert(u8s(s).subrange(0, off(s, k)) =~= u8s(s.take(k)));
    assert forall|j: int| 0 <= j < clen(s[k]) implies #[trigger] u8s(s)[off(s, k) + j] == u8c(s[k])[j] by {
        assert(u8s(s).subrange(off(s, k), off(s, k + 1))[j] == u8c(s[k])[j]);
    }
}
pub proof fn lemma_u8s_len(s: Seq<char>)
    ensures u8s(s).len() == off(s, s.len() as int)
{
    lemma_off_u8s(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}

/// Every byte position lies in exactly one character.
pub proof fn lemma_locate(s: Seq<char>, i: int) -> (k: int)
    requires 0 <= i < u8s(s).len()
    ensures 0 <= k < s.len(), off(s, k) <= i < off(s, k) + clen(s[k]),
        i < off(s, k + 1),
        cont(u8s(s)[i]) <==> i != off(s, k),
        i == off(s, k) ==> u8_starter(u8s(s)[i]),
{
    lemma_u8s_len(s);
    let k = locate(s, i, s.len() as int);
    lemma_u8s_at(s, k);
    assert(u8s(s)[off(s, k) + (i - off(s, k))] == u8c(s[k])[i - off(s, k)]);
    lemma_u8c_cont(s[k], i - off(s, k));
    k
}
pub proof fn locate(s: Seq<char>, i: int, n: int) -> (k: int)
    requires 0 <= i < off(s, n), 0 <= n <= s.len()
    ensures 0 <= k < n, off(s, k) <= i < off(s, k) + clen(s[k]), off(s, k + 1) == off(s, k) + clen(s[k])
    decreases n
{
    reveal(off);
    if i >= off(s, n - 1) { lemma_off_step(s, n - 1); n - 1 } else { locate(s, i, n - 1) }
}

/// Decoding inverts encoding, whatever follows.
pub proof fn lemma_dstep_u8c(b: Seq<u8>, i: int, c: char)
    requires 0 <= i, i + clen(c) <= b.len(), forall|j: int| 0 <= j < clen(c) ==> #[trigger] b[i + j] == u8c(c)[j]
    ensures dstep_utf8(b, i) == (DStep::Emit { n: clen(c), t: t1(c) })
{
    reveal(u8c);
    let v = c as u32 as int;
    assert(b[i + 0] == u8c(c)[0]);
    if v >= 0x80 { assert(b[i + 1] == u8c(c)[1]); }
    if v >= 0x800 { assert(b[i + 2] == u8c(c)[2]); }
    if v >= 0x10000 { assert(b[i + 3] == u8c(c)[3]); }
    assert(b[i] == b[i + 0]);
    assert(scalar(v));
    if v < 0x80 {
    } else if v < 0x800 {
        assert((v / 64) * 64 + v % 64 == v);
    } else if v < 0x10000 {
        assert((v / 4096) * 4096 + ((v / 64) % 64) * 64 + v % 64 == v);
    } else {
        assert((v / 262144) * 262144 + ((v / 4096) % 64) * 4096 + ((v / 64) % 64) * 64 + v % 64 == v);
    }
}

proof fn join2(a: int, x: int)
    requires 0 <= x < 64, 0 <= a
    ensures (a * 64 + x) / 64 == a, (a * 64 + x) % 64 == x
{ }
proof fn join3(a: int, x: int, y: int)
    requires 0 <= x < 64, 0 <= y < 64, 0 <= a
    ensures (a * 4096 + x * 64 + y) / 4096 == a, ((a * 4096 + x * 64 + y) / 64) % 64 == x, (a * 4096 + x * 64 + y) % 64 == y
{ assert((a * 4096 + x * 64 + y) / 64 == a * 64 + x); }
proof fn join4(a: int, x: int, y: int, z: int)
    requires 0 <= x < 64, 0 <= y < 64, 0 <= z < 64, 0 <= a
    ensures ({
        let v = a * 262144 + x * 4096 + y * 64 + z;
        v / 262144 == a && (v / 4096) % 64 == x && (v / 64) % 64 == y && v % 64 == z
    })
{
    let v = a * 262144 + x * 4096 + y * 64 + z;
    assert(v / 64 == a * 4096 + x * 64 + y);
    assert(v / 4096 == a * 64 + x);
}
proof fn u8c_two(v: int)
    requires 0x80 <= v < 0x800
    ensures u8c(v as u32 as char) == seq![(0xC0 + v / 64) as u8, (0x80 + v % 64) as u8], clen(v as u32 as char) == 2
{ reveal(u8c); }
proof fn u8c_three(v: int)
    requires 0x800 <= v < 0x10000, scalar(v)
    ensures u8c(v as u32 as char) == seq![(0xE0 + v / 4096) as u8, (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8], clen(v as u32 as char) == 3
{ reveal(u8c); }
proof fn u8c_four(v: int)
    requires 0x10000 <= v < 0x110000
    ensures u8c(v as u32 as char) == seq![(0xF0 + v / 262144) as u8, (0x80 + (v / 4096) % 64) as u8, (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8], clen(v as u32 as char) == 4
{ reveal(u8c); }

/// Encoding inverts decoding.
pub proof fn lemma_u8c_dstep(b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), dstep_utf8(b, i) is Emit
    ensures ({
        let n = dstep_utf8(b, i)->n;
        let t = dstep_utf8(b, i)->t;
        &&& 1 <= n <= 4 && i + n <= b.len()
        &&& t == t1(t[0]) && clen(t[0]) == n
        &&& u8s(t) == b.subrange(i, i + n)
    }),
{
    let n = dstep_utf8(b, i)->n;
    let t = dstep_utf8(b, i)->t;
    let c = t[0];
    assert(t =~= t1(c));
    lemma_u8s_one(c);
    let b0 = b[i] as int;
    let s = b.subrange(i, i + n);
    if b0 < 0x80 {
        b_u8c_1(c);
        assert(seq![b[i]] =~= s);
    } else if b0 < 0xE0 {
        let a = b0 - 0xC0; let x = b[i + 1] - 0x80;
        join2(a, x); u8c_two(a * 64 + x);
        assert(u8c(c) =~= s);
    } else if b0 < 0xF0 {
        let a = b0 - 0xE0; let x = b[i + 1] - 0x80; let y = b[i + 2] - 0x80;
        join3(a, x, y); u8c_three(a * 4096 + x * 64 + y);
        assert(u8c(c) =~= s);
    } else {
        let a = b0 - 0xF0; let x = b[i + 1] - 0x80; let y = b[i + 2] - 0x80; let z = b[i + 3] - 0x80;
        join4(a, x, y, z); u8c_four(a * 262144 + x * 4096 + y * 64 + z);
        assert(u8c(c) =~= s);
    }
}

/// The UTF-8 "encoding" of a text is its UTF-8 form.
pub proof fn lemma_erun_utf8(s: Seq<char>, k: int, end: bool)
    requires 0 <= k <= s.len()
    ensures erun(EEnc::Utf8, s, 0, k, end) == Some(u8s(s).subrange(0, off(s, k)))
    decreases k
{
    if k == 0 {
        lemma_erun_empty(EEnc::Utf8, s, 0, end);
        lemma_off_step(s, 0);
        assert(u8s(s).subrange(0, 0) =~= Seq::<u8>::empty());
    } else {
        lemma_erun_utf8(s, k - 1, end);
        b_estep_utf8(s, k - 1, end);
        lemma_erun_snoc(EEnc::Utf8, s, 0, k - 1, end);
        lemma_u8s_at(s, k - 1);
        assert(u8s(s).subrange(0, off(s, k)) =~= u8s(s).subrange(0, off(s, k - 1)) + u8c(s[k - 1]));
    }
}
pub broadcast proof fn b_erun_utf8(s: Seq<char>, k: int, end: bool)
    requires 0 <= k <= s.len()
    ensures #[trigger] erun(EEnc::Utf8, s, 0, k, end) == Some(u8s(s).subrange(0, off(s, k)))
{ lemma_erun_utf8(s, k, end); }

/// Decoding the front `off(s,k)` bytes of anything that starts with u8s(s).
pub proof fn lemma_drun_u8s(b: Seq<u8>, s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), u8s(s).len() <= b.len(), u8s(s) == b.subrange(0, u8s(s).len() as int)
    ensures drun(DEnc::Utf8, b, 0, off(s, k)) == Some(b.subrange(0, off(s, k))),
        off(s, k) <= u8s(s).len(),
        k < s.len() ==> dstep(DEnc::Utf8, b, off(s, k)) == (DStep::Emit { n: clen(s[k]), t: t1(s[k]) }),
    decreases k
{
    broadcast use b_dstep_utf8;
    lemma_u8s_len(s);
    lemma_off_mono(s, k, s.len() as int);
    if k < s.len() {
        lemma_u8s_at(s, k);
        assert forall|j: int| 0 <= j < clen(s[k]) implies #[trigger] b[off(s, k) + j] == u8c(s[k])[j] by {
            assert(u8s(s)[off(s, k) + j] == u8c(s[k])[j]);
            assert(b.subrange(0, u8s(s).len() as int)[off(s, k) + j] == b[off(s, k) + j]);
        }
        lemma_dstep_u8c(b, off(s, k), s[k]);
    }
    if k == 0 {
        lemma_drun_empty(DEnc::Utf8, b, 0);
        lemma_off_step(s, 0);
        assert(b.subrange(0, 0) =~= Seq::<u8>::empty());
    } else {
        lemma_u8s_at(s, k - 1);
        lemma_drun_u8s(b, s, k - 1);
        lemma_drun_snoc(DEnc::Utf8, b, 0, off(s, k - 1));
        lemma_u8s_one(s[k - 1]);
        assert(u8s(s)[off(s, k - 1) + 0] == u8c(s[k - 1])[0]);
        assert(b.subrange(0, off(s, k)) =~= b.subrange(0, off(s, k - 1)) + u8c(s[k - 1])) by {
            assert forall|j: int| off(s, k - 1) <= j < off(s, k) implies b[j] == u8c(s[k - 1])[j - off(s, k - 1)] by {
                assert(u8s(s)[off(s, k - 1) + (j - off(s, k - 1))] == u8c(s[k - 1])[j - off(s, k - 1)]);
                assert(b.subrange(0, u8s(s).len() as int)[j] == b[j]);
            }
        }
    }
}

/// What a text's bytes look like cut at `n` bytes: the largest boundary not
/// above n (`copy_len`'s contract).
pub open spec fn cut(b: Seq<u8>, n: int, r: int) -> bool {
    if n >= b.len() { r == b.len() } else {
        &&& 0 <= r <= n
        &&& r == 0 || !cont(b[r])
        &&& forall|j: int| r < j <= n ==> cont(#[trigger] b[j])
    }
}

/// The consequences of `cut` for the bytes of a text.
pub proof fn lemma_cut(s: Seq<char>, n: int, r: int) -> (k: int)
    requires cut(u8s(s), n, r), 0 <= n
    ensures 0 <= k <= s.len(), r == off(s, k), k == s.len() || n - r < clen(s[k]), r <= u8s(s).len(),
{
    lemma_u8s_len(s);
    if n >= u8s(s).len() {
        s.len() as int
    } else {
        let k = lemma_locate(s, r);
        lemma_off_mono(s, k, k + 1);
        lemma_u8s_at(s, k);
        if r == 0 && r != off(s, k) { lemma_off_mono(s, 0, k); }
        assert(r == off(s, k));
        if n - r >= clen(s[k]) {
            let q = off(s, k + 1);
            assert(r < q <= n);
            let k2 = lemma_locate(s, q);
            if k2 < k + 1 { lemma_off_mono(s, k2 + 1, k + 1); }
            if k2 > k + 1 { lemma_off_mono(s, k + 1, k2); }
        }
        k
    }
}
pub broadcast proof fn b_cut_enc(s: Seq<char>, n: int, r: int)
    requires #[trigger] cut(u8s(s), n, r), 0 <= n
    ensures is_off(s, r), r <= u8s(s).len(), u8s(s).len() == off(s, s.len() as int),
        enc_cut(s, n, r),
{
    lemma_u8s_len(s);
    let k = lemma_cut(s, n, r);
    assert(off(s, k) == r);
}
pub open spec fn enc_cut(s: Seq<char>, n: int, r: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && r == #[trigger] off(s, k) && (k == s.len() || n - r < clen(s[k]))
}

/// While looking downwards for a boundary, from the end or from n.
pub proof fn enc_scan(s: Seq<char>, n: int, r: int)
    requires 0 <= r <= n, r <= u8s(s).len(), forall|j: int| r < j <= n && j <= u8s(s).len() ==> !(#[trigger] is_off(s, j))
    ensures is_off(s, 0), is_off(s, r) ==> enc_cut(s, n, r), u8s(s).len() == off(s, s.len() as int),
{
    lemma_u8s_len(s);
    assert(off(s, 0) == 0) by { lemma_off_step(s, 0); }
    if is_off(s, r) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == r;
        if k < s.len() {
            lemma_off_step(s, k);
            let q = off(s, k + 1);
            assert(is_off(s, q));
            lemma_off_mono(s, k + 1, s.len() as int);
            if n - r >= clen(s[k]) { assert(r < q <= n); }
        }
    }
}

/// A decoder that takes the front `v` valid bytes of `b`, cut to n bytes.
pub broadcast proof fn b_cut_dec(b: Seq<u8>, v: int, n: int, r: int)
    requires 0 <= v <= b.len(), drun(DEnc::Utf8, b, 0, v) == Some(b.subrange(0, v)),
        #[trigger] cut(b.subrange(0, v), n, r), 0 <= n
    ensures 0 <= r <= v, r <= n,
        drun(DEnc::Utf8, b, 0, r) == Some(b.subrange(0, r)),
        wf(b.subrange(0, r)),
        r == v || match dstep(DEnc::Utf8, b, r) { DStep::Emit { n: m, t } => n - r < u8s(t).len(), _ => false },
{
    lemma_drun_wf(DEnc::Utf8, b, 0, v);
    let s = choose|s: Seq<char>| b.subrange(0, v) =~= #[trigger] u8s(s);
    lemma_u8s_len(s);
    let k = lemma_cut(s, n, r);
    lemma_drun_u8s(b, s, k);
    lemma_drun_wf(DEnc::Utf8, b, 0, r);
    if k < s.len() { lemma_u8s_one(s[k]); b_u8c_len(s[k]); }
    lemma_off_mono(s, k, s.len() as int);
}

/// What a text's bytes, and the front of a well-formed input, begin with.
pub open spec fn lead_ok(b: Seq<u8>) -> bool { b.len() > 0 ==> !cont(b[0]) }
pub broadcast proof fn b_lead_enc(s: Seq<char>)
    ensures #[trigger] lead_ok(u8s(s))
{
    if u8s(s).len() > 0 {
        lemma_u8s_len(s);
        reveal_with_fuel(off, 1);
        lemma_u8s_at(s, 0);
        lemma_u8c_cont(s[0], 0);
    }
}
pub broadcast proof fn b_lead_dec(b: Seq<u8>, v: int)
    requires 0 <= v <= b.len(), drun(DEnc::Utf8, b, 0, v) == Some(b.subrange(0, v))
    ensures #[trigger] lead_ok(b.subrange(0, v))
{
    lemma_drun_wf(DEnc::Utf8, b, 0, v);
    let s = choose|s: Seq<char>| b.subrange(0, v) =~= #[trigger] u8s(s);
    b_lead_enc(s);
}

pub broadcast group utf8_lemmas { b_lead_enc, b_lead_dec, b_cut_enc, b_cut_dec, b_erun_utf8, b_u8c_len, b_u8s_one, b_drun_wf, b_estep_utf8, b_dstep_utf8 }
