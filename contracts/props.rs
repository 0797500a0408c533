// ---------------------------------------------------------------------------
// The properties that are about several calls, as theorems over the contract
// clauses (enc_exact, enc_stop, enc_err, dec_exact, dstop, dec_err) that the
// function units prove of the real functions.  Every theorem is a function
// thm_<property>_<name>.
// ---------------------------------------------------------------------------

// ----- runs ----------------------------------------------------------------

pub proof fn erun_step(e: EEnc, s: Seq<char>, i: int, j: int, end: bool)
    requires erun(e, s, i, j, end) is Some, i != j
    ensures i < j, estep(e, s, i, end) is Emit, estep(e, s, i, end)->n >= 1, i + estep(e, s, i, end)->n <= j,
        erun(e, s, i + estep(e, s, i, end)->n, j, end) is Some,
        erun(e, s, i, j, end)->0 == estep(e, s, i, end)->b + erun(e, s, i + estep(e, s, i, end)->n, j, end)->0,
{ reveal_with_fuel(erun, 2); }

pub proof fn erun_cons(e: EEnc, s: Seq<char>, i: int, j: int, end: bool)
    requires estep(e, s, i, end) is Emit, estep(e, s, i, end)->n >= 1, i + estep(e, s, i, end)->n <= j,
        erun(e, s, i + estep(e, s, i, end)->n, j, end) is Some,
    ensures erun(e, s, i, j, end) == Some(estep(e, s, i, end)->b + erun(e, s, i + estep(e, s, i, end)->n, j, end)->0),
{ reveal_with_fuel(erun, 2); }

pub proof fn erun_concat(e: EEnc, s: Seq<char>, i: int, j: int, k: int, end: bool)
    requires erun(e, s, i, j, end) is Some, erun(e, s, j, k, end) is Some
    ensures erun(e, s, i, k, end) == Some(erun(e, s, i, j, end)->0 + erun(e, s, j, k, end)->0)
    decreases j - i
{
    if i == j {
        lemma_erun_empty(e, s, i, end);
        assert(Seq::<u8>::empty() + erun(e, s, j, k, end)->0 =~= erun(e, s, j, k, end)->0);
    } else {
        erun_step(e, s, i, j, end);
        let m = i + estep(e, s, i, end)->n;
        erun_concat(e, s, m, j, k, end);
        if j != k { erun_step(e, s, j, k, end); }
        erun_cons(e, s, i, k, end);
        assert(erun(e, s, i, k, end)->0 =~= erun(e, s, i, j, end)->0 + erun(e, s, j, k, end)->0);
    }
}

/// Where an encoder cannot go on, no run goes past it.
pub proof fn erun_unique(e: EEnc, s: Seq<char>, i: int, j: int, k: int, end: bool)
    requires erun(e, s, i, j, end) is Some, erun(e, s, i, k, end) is Some, j < k
    ensures estep(e, s, j, end) is Emit
    decreases j - i
{
    reveal_with_fuel(erun, 2);
    erun_step(e, s, i, k, end);
    if i != j {
        erun_step(e, s, i, j, end);
        erun_unique(e, s, i + estep(e, s, i, end)->n, j, k, end);
    }
}

pub proof fn drun_step(d: DEnc, b: Seq<u8>, i: int, j: int)
    requires drun(d, b, i, j) is Some, i != j
    ensures i < j, dstep(d, b, i) is Emit, dstep(d, b, i)->n >= 1, i + dstep(d, b, i)->n <= j,
        drun(d, b, i + dstep(d, b, i)->n, j) is Some,
        drun(d, b, i, j)->0 == u8s(dstep(d, b, i)->t) + drun(d, b, i + dstep(d, b, i)->n, j)->0,
{ reveal_with_fuel(drun, 2); }

pub proof fn drun_cons(d: DEnc, b: Seq<u8>, i: int, j: int)
    requires dstep(d, b, i) is Emit, dstep(d, b, i)->n >= 1, i + dstep(d, b, i)->n <= j,
        drun(d, b, i + dstep(d, b, i)->n, j) is Some,
    ensures drun(d, b, i, j) == Some(u8s(dstep(d, b, i)->t) + drun(d, b, i + dstep(d, b, i)->n, j)->0),
{ reveal_with_fuel(drun, 2); }

pub proof fn drun_concat(d: DEnc, b: Seq<u8>, i: int, j: int, k: int)
    requires drun(d, b, i, j) is Some, drun(d, b, j, k) is Some
    ensures drun(d, b, i, k) == Some(drun(d, b, i, j)->0 + drun(d, b, j, k)->0)
    decreases j - i
{
    if i == j {
        lemma_drun_empty(d, b, i);
        assert(Seq::<u8>::empty() + drun(d, b, j, k)->0 =~= drun(d, b, j, k)->0);
    } else {
        drun_step(d, b, i, j);
        let m = i + dstep(d, b, i)->n;
        drun_concat(d, b, m, j, k);
        if j != k { drun_step(d, b, j, k); }
        drun_cons(d, b, i, k);
        assert(drun(d, b, i, k)->0 =~= drun(d, b, i, j)->0 + drun(d, b, j, k)->0);
    }
}

pub proof fn drun_unique(d: DEnc, b: Seq<u8>, i: int, j: int, k: int)
    requires drun(d, b, i, j) is Some, drun(d, b, i, k) is Some, j < k
    ensures dstep(d, b, j) is Emit
    decreases j - i
{
    reveal_with_fuel(drun, 2);
    drun_step(d, b, i, k);
    if i != j {
        drun_step(d, b, i, j);
        drun_unique(d, b, i + dstep(d, b, i)->n, j, k);
    }
}

// ----- offsets -------------------------------------------------------------

pub proof fn off_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, off(s, i) == off(s, j)
    ensures i == j
{
    if i < j { lemma_off_mono(s, i, j); }
    if j < i { lemma_off_mono(s, j, i); }
}

pub proof fn off_sub(s: Seq<char>, a: int, b: int, k: int)
    requires 0 <= a <= b <= s.len(), 0 <= k <= b - a
    ensures off(s.subrange(a, b), k) == off(s, a + k) - off(s, a)
    decreases k
{
    let x = s.subrange(a, b);
    lemma_off_step(s, a);
    lemma_off_step(x, 0);
    if k > 0 {
        off_sub(s, a, b, k - 1);
        lemma_off_step(x, k - 1);
        lemma_off_step(s, a + k - 1);
        assert(x[k - 1] == s[a + k - 1]);
    }
}

// ----- C09: streaming encoders ---------------------------------------------

/// What an encoder does at a character does not depend on how much of the text
/// is available, unless it says that it has to wait.
pub proof fn estep_local(e: EEnc, s: Seq<char>, a: int, b: int, end: bool, i: int)
    requires 0 <= a <= b <= s.len(), end ==> b == s.len(), 0 <= i < b - a,
        !(estep(e, s.subrange(a, b), i, end) is Wait),
    ensures estep(e, s, a + i, true) == estep(e, s.subrange(a, b), i, end)
{
    reveal(estep);
    let x = s.subrange(a, b);
    assert(x[i] == s[a + i]);
    if i + 1 < x.len() { assert(x[i + 1] == s[a + i + 1]); }
}

pub proof fn erun_local(e: EEnc, s: Seq<char>, a: int, b: int, end: bool, i: int, j: int)
    requires 0 <= a <= b <= s.len(), end ==> b == s.len(), 0 <= i <= j <= b - a,
        erun(e, s.subrange(a, b), i, j, end) is Some,
    ensures erun(e, s, a + i, a + j, true) == erun(e, s.subrange(a, b), i, j, end)
    decreases j - i
{
    let x = s.subrange(a, b);
    if i == j {
        lemma_erun_empty(e, s, a + i, true);
        lemma_erun_empty(e, x, i, end);
    } else {
        erun_step(e, x, i, j, end);
        estep_local(e, s, a, b, end, i);
        erun_local(e, s, a, b, end, i + estep(e, x, i, end)->n, j);
        erun_cons(e, s, a + i, a + j, true);
    }
}

/// Codes have at most emax(e) bytes, and emax(e) is at most 4.
pub proof fn estep_len(e: EEnc, s: Seq<char>, i: int, end: bool)
    requires 0 <= i < s.len(), estep(e, s, i, end) is Emit
    ensures 1 <= estep(e, s, i, end)->n <= 2, i + estep(e, s, i, end)->n <= s.len(),
        1 <= estep(e, s, i, end)->b.len() <= emax(e), emax(e) <= 4,
{
    reveal(estep);
    broadcast use {enc_lemmas, b_u8c_len};
}

pub proof fn erun_len(e: EEnc, s: Seq<char>, i: int, j: int, end: bool)
    requires 0 <= i <= j <= s.len(), erun(e, s, i, j, end) is Some
    ensures erun(e, s, i, j, end)->0.len() <= 4 * (j - i)
    decreases j - i
{
    if i == j { lemma_erun_empty(e, s, i, end); }
    else {
        erun_step(e, s, i, j, end);
        estep_len(e, s, i, end);
        erun_len(e, s, i + estep(e, s, i, end)->n, j, end);
    }
}

/// One call of an encoder: characters a..b of the text were available.
pub struct ECall { pub a: int, pub b: int, pub end: bool, pub old_len: int, pub out: Seq<u8>, pub res: ERes }
pub enum ERes { Ok { r: Seq<u8>, n: int }, Err { c: char, lo: int, hi: int, w: int } }

/// The call meets the contract that the function units prove.
pub open spec fn ecall(e: EEnc, s: Seq<char>, c: ECall) -> bool {
    let x = s.subrange(c.a, c.b);
    &&& 0 <= c.a <= c.b <= s.len()
    &&& c.end ==> c.b == s.len()
    &&& c.out.len() == c.old_len
    &&& match c.res {
            ERes::Ok { r, n } => enc_exact(e, x, c.end, c.out, r, n) && enc_stop(e, x, c.end, c.old_len, r.len() as int, n),
            ERes::Err { c: ch, lo, hi, w } => enc_err(e, x, c.end, c.out, ch, lo, hi, w),
        }
}
/// Calls that follow each other: each begins where the one before stopped.
pub open spec fn ehist(e: EEnc, s: Seq<char>, h: Seq<ECall>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] ecall(e, s, h[i])
    &&& h.len() > 0 ==> h[0].a == 0
    &&& forall|i: int| 0 <= i < h.len() - 1 ==> (#[trigger] h[i]).res is Ok && off(s, h[i + 1].a) == off(s, h[i].a) + h[i].res->n
}
/// What the successful calls wrote, in order.
pub open spec fn ebytes(h: Seq<ECall>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() }
    else { ebytes(h.drop_last()) + match h.last().res { ERes::Ok { r, n } => r, ERes::Err { c, lo, hi, w } => h.last().out.subrange(0, w) } }
}

/// What one call says about the whole text.
pub proof fn ecall_ok(e: EEnc, s: Seq<char>, c: ECall) -> (k: int)
    requires ecall(e, s, c), c.res is Ok
    ensures c.a <= k <= c.b, off(s, k) == off(s, c.a) + c.res->n,
        erun(e, s, c.a, k, true) == Some(c.res->r),
        estop(e, s.subrange(c.a, c.b), k - c.a, c.end, c.old_len - c.res->r.len()),
{
    let x = s.subrange(c.a, c.b);
    let k1 = choose|k: int| 0 <= k <= x.len() && c.res->n == #[trigger] off(x, k) && erun(e, x, 0, k, c.end) is Some && erun(e, x, 0, k, c.end)->0 =~= c.res->r && front(c.out, c.res->r.len() as int, c.res->r);
    let k2 = choose|k: int| 0 <= k <= x.len() && c.res->n == #[trigger] off(x, k) && estop(e, x, k, c.end, c.old_len - c.res->r.len());
    off_inj(x, k1, k2);
    off_sub(s, c.a, c.b, k1);
    erun_local(e, s, c.a, c.b, c.end, 0, k1);
    c.a + k1
}
pub proof fn ecall_err(e: EEnc, s: Seq<char>, c: ECall) -> (k: int)
    requires ecall(e, s, c), c.res is Err
    ensures c.a <= k < c.b, estep(e, s, k, true) == EStep::Bad, c.res->c == s[k],
        off(s, k) == off(s, c.a) + c.res->lo, c.res->hi == c.res->lo + clen(s[k]),
        erun(e, s, c.a, k, true) == Some(c.out.subrange(0, c.res->w)),
{
    let x = s.subrange(c.a, c.b);
    let (lo, hi, w, ch) = (c.res->lo, c.res->hi, c.res->w, c.res->c);
    let k = choose|k: int| 0 <= k < x.len() && lo == #[trigger] off(x, k) && hi == off(x, k) + clen(x[k])
        && ch == x[k] && estep(e, x, k, c.end) == EStep::Bad
        && 0 <= w <= c.out.len() && erun(e, x, 0, k, c.end) is Some && erun(e, x, 0, k, c.end)->0 =~= c.out.subrange(0, w);
    off_sub(s, c.a, c.b, k);
    erun_local(e, s, c.a, c.b, c.end, 0, k);
    estep_local(e, s, c.a, c.b, c.end, k);
    c.a + k
}

/// All calls so far returned text: together they wrote the encoding of the
/// consumed text.
pub proof fn thm_c09_bytes_so_far(e: EEnc, s: Seq<char>, h: Seq<ECall>) -> (k: int)
    requires ehist(e, s, h), h.len() > 0, h.last().res is Ok
    ensures 0 <= h.last().a <= k <= h.last().b, off(s, k) == off(s, h.last().a) + h.last().res->n,
        erun(e, s, 0, k, true) == Some(ebytes(h)),
    decreases h.len()
{
    let c = h.last();
    let n = h.len() as int;
    assert(ecall(e, s, h[n - 1]));
    let k = ecall_ok(e, s, c);
    if n == 1 {
        reveal_with_fuel(ebytes, 2);
        assert(h.drop_last() =~= Seq::<ECall>::empty());
        assert(Seq::<u8>::empty() + c.res->r =~= c.res->r);
    } else {
        before_last(e, s, h);
        erun_concat(e, s, 0, c.a, k, true);
    }
    k
}
pub proof fn before_last(e: EEnc, s: Seq<char>, h: Seq<ECall>)
    requires ehist(e, s, h), h.len() > 1
    ensures erun(e, s, 0, h.last().a, true) == Some(ebytes(h.drop_last()))
    decreases h.len(), 0int
{
    let n = h.len() as int;
    let g = h.drop_last();
    assert(ecall(e, s, h[n - 1]));
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] ecall(e, s, g[i]) by { assert(ecall(e, s, h[i])); }
    assert forall|i: int| 0 <= i < g.len() - 1 implies (#[trigger] g[i]).res is Ok && off(s, g[i + 1].a) == off(s, g[i].a) + g[i].res->n by {
        assert(g[i] == h[i] && g[i + 1] == h[i + 1]);
    }
    assert(h[n - 2].res is Ok);
    assert(g.last() == h[n - 2]);
    let k = thm_c09_bytes_so_far(e, s, g);
    off_inj(s, k, h.last().a);
}

/// Streaming that reaches the end and one call with a large buffer write the
/// same bytes.
pub proof fn thm_c09_same_bytes(e: EEnc, s: Seq<char>, h: Seq<ECall>, one: ECall)
    requires ehist(e, s, h), h.len() > 0, h.last().res is Ok, h.last().end,
        off(s, h.last().a) + h.last().res->n == off(s, s.len() as int),
        ecall(e, s, one), one.a == 0, one.b == s.len(), one.end, one.old_len >= 4 * s.len() + 4,
    ensures one.res is Ok, one.res->r == ebytes(h), one.res->n == off(s, s.len() as int),
{
    let k = thm_c09_bytes_so_far(e, s, h);
    off_inj(s, k, s.len() as int);
    thm_c09_one_call(e, s, one);
    if one.res is Err {
        let j = ecall_err(e, s, one);
        erun_unique(e, s, 0, j, k, true);
    } else {
        let j = ecall_ok(e, s, one);
        lemma_off_step(s, 0);
        off_inj(s, j, k);
    }
}
/// One call with a large buffer either encodes everything or reports an error.
pub proof fn thm_c09_one_call(e: EEnc, s: Seq<char>, one: ECall)
    requires ecall(e, s, one), one.a == 0, one.b == s.len(), one.end, one.old_len >= 4 * s.len() + 4,
    ensures one.res is Ok ==> one.res->n == off(s, s.len() as int)
{
    if one.res is Ok {
        let k = ecall_ok(e, s, one);
        assert(s.subrange(0, s.len() as int) =~= s);
        erun_len(e, s, 0, k, true);
        lemma_off_step(s, 0);
        if k < s.len() {
            if estep(e, s, k, true) is Emit { estep_len(e, s, k, true); }
            reveal(estep);
        }
    }
}
/// Streaming that ends in an error and one call with a large buffer report the
/// same character at the same position after the same bytes.
pub proof fn thm_c09_same_error(e: EEnc, s: Seq<char>, h: Seq<ECall>, one: ECall)
    requires ehist(e, s, h), h.len() > 0, h.last().res is Err,
        ecall(e, s, one), one.a == 0, one.b == s.len(), one.end, one.old_len >= 4 * s.len() + 4,
    ensures one.res is Err, one.res->c == h.last().res->c,
        one.res->lo == off(s, h.last().a) + h.last().res->lo, one.res->hi == off(s, h.last().a) + h.last().res->hi,
        one.out.subrange(0, one.res->w) == ebytes(h),
{
    let c = h.last();
    let n = h.len() as int;
    assert(ecall(e, s, h[n - 1]));
    let k = ecall_err(e, s, c);
    let w = c.out.subrange(0, c.res->w);
    lemma_off_step(s, 0);
    if n == 1 {
        reveal_with_fuel(ebytes, 2);
        assert(h.drop_last() =~= Seq::<ECall>::empty());
        assert(Seq::<u8>::empty() + w =~= w);
    } else {
        before_last(e, s, h);
        erun_concat(e, s, 0, c.a, k, true);
    }
    assert(erun(e, s, 0, k, true) == Some(ebytes(h)));
    thm_c09_one_call(e, s, one);
    if one.res is Ok {
        let j = ecall_ok(e, s, one);
        off_inj(s, j, s.len() as int);
        erun_unique(e, s, 0, k, j, true);
    } else {
        let j = ecall_err(e, s, one);
        if j < k { erun_unique(e, s, 0, j, k, true); }
        if k < j { erun_unique(e, s, 0, k, j, true); }
    }
}
/// With at least four bytes of room a call takes something, reports an error,
/// or holds exactly one character back until more text comes.
pub proof fn thm_c09_progress(e: EEnc, s: Seq<char>, c: ECall)
    requires ecall(e, s, c), c.a < c.b, c.old_len >= 4,
    ensures c.res is Err || c.res->n > 0 || (!c.end && c.b == c.a + 1)
{
    if c.res is Ok && c.res->n <= 0 {
        let k = ecall_ok(e, s, c);
        if c.a < k { lemma_off_mono(s, c.a, k); }
        lemma_erun_empty(e, s, c.a, true);
        let x = s.subrange(c.a, c.b);
        if estep(e, x, 0, c.end) is Emit { estep_len(e, x, 0, c.end); }
        reveal(estep);
    }
}

// ----- C10: streaming decoders ---------------------------------------------

pub open spec fn dwf(d: DEnc) -> bool {
    match d { DEnc::Sb { tab } => tab.len() == 128, _ => true }
}

pub proof fn dstep_local(d: DEnc, b: Seq<u8>, p: int, q: int, end: bool, i: int)
    requires 0 <= p <= q <= b.len(), end ==> q == b.len(), 0 <= i < q - p, dwf(d),
        !(dstep(d, b.subrange(p, q), i) is Incomplete) || end,
    ensures dstep(d, b, p + i) == dstep(d, b.subrange(p, q), i)
{
    reveal(dstep);
    let x = b.subrange(p, q);
    assert(x[i] == b[p + i]);
    if i + 1 < x.len() { assert(x[i + 1] == b[p + i + 1]); }
    if i + 2 < x.len() { assert(x[i + 2] == b[p + i + 2]); }
    if i + 3 < x.len() { assert(x[i + 3] == b[p + i + 3]); }
}

pub proof fn drun_local(d: DEnc, b: Seq<u8>, p: int, q: int, i: int, j: int)
    requires 0 <= p <= q <= b.len(), 0 <= i <= j <= q - p, drun(d, b.subrange(p, q), i, j) is Some, dwf(d),
    ensures drun(d, b, p + i, p + j) == drun(d, b.subrange(p, q), i, j)
    decreases j - i
{
    let x = b.subrange(p, q);
    if i == j {
        lemma_drun_empty(d, b, p + i);
        lemma_drun_empty(d, x, i);
    } else {
        drun_step(d, x, i, j);
        dstep_local(d, b, p, q, false, i);
        drun_local(d, b, p, q, i + dstep(d, x, i)->n, j);
        drun_cons(d, b, p + i, p + j);
    }
}

pub proof fn u8s_len12(t: Seq<char>)
    requires t.len() == 1 || t.len() == 2
    ensures t.len() <= u8s(t).len() <= 4 * t.len(), t.len() == 1 ==> u8s(t) == u8c(t[0])
{
    broadcast use b_u8c_len;
    if t.len() == 1 { assert(t =~= t1(t[0])); lemma_u8s_one(t[0]); }
    else { assert(t =~= t2(t[0], t[1])); lemma_u8s_two(t[0], t[1]); }
}
pub proof fn dstep_len(d: DEnc, b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), dstep(d, b, i) is Emit, dwf(d),
    ensures 1 <= dstep(d, b, i)->n <= 4, i + dstep(d, b, i)->n <= b.len(),
        1 <= u8s(dstep(d, b, i)->t).len() <= 4, dstep(d, b, i)->t.len() >= 1,
{
    reveal(dstep);
    broadcast use {b_u8c_len, b_u8s_one, b_u8s_two};
}
pub proof fn drun_len(d: DEnc, b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), drun(d, b, i, j) is Some, dwf(d)
    ensures drun(d, b, i, j)->0.len() <= 4 * (j - i)
    decreases j - i
{
    if i == j { lemma_drun_empty(d, b, i); }
    else {
        drun_step(d, b, i, j);
        dstep_len(d, b, i);
        drun_len(d, b, i + dstep(d, b, i)->n, j);
    }
}

/// One call of a decoder: bytes a..b of the input were available.
pub struct DCall { pub a: int, pub b: int, pub end: bool, pub old_len: int, pub out: Seq<u8>, pub res: DRes }
pub enum DRes { Ok { t: Seq<u8>, n: int }, Err { lo: int, hi: int, w: int } }

pub open spec fn dcall(d: DEnc, b: Seq<u8>, c: DCall) -> bool {
    let x = b.subrange(c.a, c.b);
    &&& dwf(d)
    &&& 0 <= c.a <= c.b <= b.len()
    &&& c.end ==> c.b == b.len()
    &&& c.out.len() == c.old_len
    &&& match c.res {
            DRes::Ok { t, n } => dec_exact(d, x, t, n) && dstop(d, x, n, c.end, c.old_len - t.len()),
            DRes::Err { lo, hi, w } => dec_err(d, x, c.end, c.out, lo, w),
        }
}
pub open spec fn dhist(d: DEnc, b: Seq<u8>, h: Seq<DCall>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] dcall(d, b, h[i])
    &&& h.len() > 0 ==> h[0].a == 0
    &&& forall|i: int| 0 <= i < h.len() - 1 ==> (#[trigger] h[i]).res is Ok && h[i + 1].a == h[i].a + h[i].res->n
}
pub open spec fn dtext(h: Seq<DCall>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() }
    else { dtext(h.drop_last()) + match h.last().res { DRes::Ok { t, n } => t, DRes::Err { lo, hi, w } => h.last().out.subrange(0, w) } }
}

pub proof fn dcall_ok(d: DEnc, b: Seq<u8>, c: DCall)
    requires dcall(d, b, c), c.res is Ok
    ensures 0 <= c.res->n <= c.b - c.a, drun(d, b, c.a, c.a + c.res->n) == Some(c.res->t),
{
    drun_local(d, b, c.a, c.b, 0, c.res->n);
}
pub proof fn dcall_err(d: DEnc, b: Seq<u8>, c: DCall)
    requires dcall(d, b, c), c.res is Err
    ensures 0 <= c.res->lo < c.b - c.a, drun(d, b, c.a, c.a + c.res->lo) == Some(c.out.subrange(0, c.res->w)),
        !(dstep(d, b, c.a + c.res->lo) is Emit),
{
    drun_local(d, b, c.a, c.b, 0, c.res->lo);
    dstep_local(d, b, c.a, c.b, c.end, c.res->lo);
}

pub proof fn thm_c10_text_so_far(d: DEnc, b: Seq<u8>, h: Seq<DCall>)
    requires dhist(d, b, h), h.len() > 0, h.last().res is Ok
    ensures 0 <= h.last().a, h.last().a + h.last().res->n <= b.len(), drun(d, b, 0, h.last().a + h.last().res->n) == Some(dtext(h))
    decreases h.len()
{
    let c = h.last();
    let n = h.len() as int;
    assert(dcall(d, b, h[n - 1]));
    dcall_ok(d, b, c);
    if n == 1 {
        reveal_with_fuel(dtext, 2);
        assert(h.drop_last() =~= Seq::<DCall>::empty());
        assert(Seq::<u8>::empty() + c.res->t =~= c.res->t);
    } else {
        d_before_last(d, b, h);
        drun_concat(d, b, 0, c.a, c.a + c.res->n);
    }
}
pub proof fn d_before_last(d: DEnc, b: Seq<u8>, h: Seq<DCall>)
    requires dhist(d, b, h), h.len() > 1
    ensures drun(d, b, 0, h.last().a) == Some(dtext(h.drop_last()))
    decreases h.len(), 0int
{
    let n = h.len() as int;
    let g = h.drop_last();
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] dcall(d, b, g[i]) by { assert(dcall(d, b, h[i])); }
    assert forall|i: int| 0 <= i < g.len() - 1 implies (#[trigger] g[i]).res is Ok && g[i + 1].a == g[i].a + g[i].res->n by {
        assert(g[i] == h[i] && g[i + 1] == h[i + 1]);
    }
    assert(h[n - 2].res is Ok);
    assert(g.last() == h[n - 2]);
    thm_c10_text_so_far(d, b, g);
}
/// One call with a large buffer takes everything or reports an error.
pub proof fn thm_c10_one_call(d: DEnc, b: Seq<u8>, one: DCall)
    requires dcall(d, b, one), one.a == 0, one.b == b.len(), one.end, one.old_len >= 4 * b.len() + 4,
    ensures one.res is Ok ==> one.res->n == b.len()
{
    if one.res is Ok {
        dcall_ok(d, b, one);
        assert(b.subrange(0, b.len() as int) =~= b);
        drun_len(d, b, 0, one.res->n);
        if one.res->n < b.len() && dstep(d, b, one.res->n) is Emit { dstep_len(d, b, one.res->n); }
    }
}
pub proof fn thm_c10_same_text(d: DEnc, b: Seq<u8>, h: Seq<DCall>, one: DCall)
    requires dhist(d, b, h), h.len() > 0, h.last().res is Ok, h.last().end,
        h.last().a + h.last().res->n == b.len(),
        dcall(d, b, one), one.a == 0, one.b == b.len(), one.end, one.old_len >= 4 * b.len() + 4,
    ensures one.res is Ok, one.res->t == dtext(h), one.res->n == b.len(),
{
    thm_c10_text_so_far(d, b, h);
    thm_c10_one_call(d, b, one);
    if one.res is Err {
        dcall_err(d, b, one);
        drun_unique(d, b, 0, one.res->lo, b.len() as int);
    } else {
        dcall_ok(d, b, one);
    }
}
pub proof fn thm_c10_same_error(d: DEnc, b: Seq<u8>, h: Seq<DCall>, one: DCall)
    requires dhist(d, b, h), h.len() > 0, h.last().res is Err,
        dcall(d, b, one), one.a == 0, one.b == b.len(), one.end, one.old_len >= 4 * b.len() + 4,
    ensures one.res is Err, one.res->lo == h.last().a + h.last().res->lo,
        one.out.subrange(0, one.res->w) == dtext(h),
{
    let c = h.last();
    let n = h.len() as int;
    assert(dcall(d, b, h[n - 1]));
    dcall_err(d, b, c);
    let k = c.a + c.res->lo;
    let w = c.out.subrange(0, c.res->w);
    if n == 1 {
        reveal_with_fuel(dtext, 2);
        assert(h.drop_last() =~= Seq::<DCall>::empty());
        assert(Seq::<u8>::empty() + w =~= w);
    } else {
        d_before_last(d, b, h);
        drun_concat(d, b, 0, c.a, k);
    }
    assert(drun(d, b, 0, k) == Some(dtext(h)));
    thm_c10_one_call(d, b, one);
    if one.res is Ok {
        dcall_ok(d, b, one);
        drun_unique(d, b, 0, k, b.len() as int);
    } else {
        dcall_err(d, b, one);
        let j = one.res->lo;
        if j < k { drun_unique(d, b, 0, j, k); }
        if k < j { drun_unique(d, b, 0, k, j); }
    }
}
/// With at least four bytes of room a call takes something, reports an error,
/// or holds at most three bytes back until more input comes.
pub proof fn thm_c10_progress(d: DEnc, b: Seq<u8>, c: DCall)
    requires dcall(d, b, c), c.a < c.b, c.old_len >= 4,
    ensures c.res is Err || c.res->n > 0 || (!c.end && c.b <= c.a + 3)
{
    if c.res is Ok && c.res->n <= 0 {
        dcall_ok(d, b, c);
        lemma_drun_empty(d, b, c.a);
        let x = b.subrange(c.a, c.b);
        if dstep(d, x, 0) is Emit { dstep_len(d, x, 0); }
        reveal(dstep);
    }
}
