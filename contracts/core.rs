// ---------------------------------------------------------------------------
// The contracts of shims.rs and vstd's specifications of the same core
// functions: both UTF-8 forms are the same, and so are the boundaries.
// ---------------------------------------------------------------------------

proof fn lemma_encode_scalar(c: char)
    ensures vstd::utf8::encode_scalar(c as u32) == u8c(c)
{
    reveal(u8c);
    let v = c as u32;
    assert(v < 0x80 ==> v & 0x7f == v) by (bit_vector);
    assert(v < 0x800 ==> 0xC0u8 | (((v >> 6) & 0x1f) as u8) == (0xC0 + v / 64) as u8) by (bit_vector);
    assert(v < 0x10000 ==> 0xE0u8 | (((v >> 12) & 0x0f) as u8) == (0xE0 + v / 4096) as u8) by (bit_vector);
    assert(v < 0x110000 ==> 0xF0u8 | (((v >> 18) & 0x07) as u8) == (0xF0 + v / 262144) as u8) by (bit_vector);
    assert(0x80u8 | ((v & 0x3f) as u8) == (0x80 + v % 64) as u8) by (bit_vector);
    assert(0x80u8 | (((v >> 6) & 0x3f) as u8) == (0x80 + (v / 64) % 64) as u8) by (bit_vector);
    assert(0x80u8 | (((v >> 12) & 0x3f) as u8) == (0x80 + (v / 4096) % 64) as u8) by (bit_vector);
    assert(vstd::utf8::encode_scalar(v) =~= u8c(c));
}

proof fn lemma_u8s_front(s: Seq<char>)
    requires s.len() > 0
    ensures u8s(s) == u8c(s[0]) + u8s(s.drop_first())
{
    lemma_u8s_add(t1(s[0]), s.drop_first());
    lemma_u8s_one(s[0]);
    assert(s =~= t1(s[0]) + s.drop_first());
}

proof fn lemma_encode_utf8(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s) == u8s(s)
    decreases s.len()
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 1);
    if s.len() == 0 { reveal(u8s); }
    else {
        lemma_encode_utf8(s.drop_first());
        lemma_encode_scalar(s[0]);
        lemma_u8s_front(s);
    }
}

/// What vstd says of a text's bytes.
proof fn lemma_spec_bytes(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s) == u8s(s), u8s(s).len() == off(s, s.len() as int)
{ lemma_encode_utf8(s); lemma_u8s_len(s); }

proof fn lemma_boundary(s: Seq<char>, i: int)
    ensures vstd::utf8::is_char_boundary(u8s(s), i) == is_off(s, i)
    decreases s.len()
{
    lemma_encode_utf8(s);
    lemma_u8s_len(s);
    vstd::utf8::encode_utf8_valid_utf8(s);
    lemma_off_step(s, 0);
    if i == 0 { assert(0 <= 0 <= s.len() && off(s, 0) == 0); assert(vstd::utf8::is_char_boundary(u8s(s), 0)); }
    else if i < 0 || i > u8s(s).len() {
        if is_off(s, i) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == i;
            lemma_off_mono(s, 0, k); lemma_off_mono(s, k, s.len() as int);
        }
    } else {
        if s.len() == 0 { reveal(u8s); }
        let t = s.drop_first();
        lemma_encode_utf8(t);
        lemma_encode_scalar(s[0]);
        vstd::utf8::encode_utf8_first_scalar(s);
        lemma_u8s_front(s);
        lemma_boundary(t, i - clen(s[0]));
        b_u8c_len(s[0]);
        vstd::utf8::encode_utf8_valid_utf8(t);
        assert(vstd::utf8::pop_first_scalar(u8s(s)) == u8s(t));
        assert(vstd::utf8::length_of_first_scalar(u8s(s)) == clen(s[0]));
        assert(vstd::utf8::is_char_boundary(u8s(s), i) == vstd::utf8::is_char_boundary(u8s(t), i - clen(s[0])));
        assert(t =~= s.skip(1));
        assert forall|k: int| 0 <= k <= t.len() implies #[trigger] off(t, k) == off(s, k + 1) - clen(s[0]) by {
            lemma_off_skip(s, 1, k);
        }
        if is_off(s, i) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == i;
            assert(k != 0);
            assert(off(t, k - 1) == i - clen(s[0]));
        }
        if is_off(t, i - clen(s[0])) {
            let k = choose|k: int| 0 <= k <= t.len() && #[trigger] off(t, k) == i - clen(s[0]);
            assert(off(s, k + 1) == i);
        }
    }
}

/// Texts with the same UTF-8 form are the same.
pub proof fn u8s_inj(s: Seq<char>, t: Seq<char>)
    requires u8s(s) == u8s(t)
    ensures s == t
    decreases s.len()
{
    broadcast use b_u8c_len;
    if s.len() == 0 || t.len() == 0 {
        lemma_u8s_len(s); lemma_u8s_len(t);
        lemma_off_step(s, 0); lemma_off_step(t, 0);
        lemma_off_mono(s, 0, s.len() as int); lemma_off_mono(t, 0, t.len() as int);
        assert(s =~= t);
    } else {
        lemma_u8s_at(s, 0); lemma_u8s_at(t, 0);
        lemma_off_step(s, 0); lemma_off_step(t, 0);
        let b = u8s(s);
        assert forall|j: int| 0 <= j < clen(s[0]) implies #[trigger] b[0 + j] == u8c(s[0])[j] by { assert(u8s(s)[off(s, 0) + j] == u8c(s[0])[j]); }
        assert forall|j: int| 0 <= j < clen(t[0]) implies #[trigger] b[0 + j] == u8c(t[0])[j] by { assert(u8s(t)[off(t, 0) + j] == u8c(t[0])[j]); }
        lemma_dstep_u8c(b, 0, s[0]);
        lemma_dstep_u8c(b, 0, t[0]);
        assert(t1(s[0])[0] == t1(t[0])[0]);
        assert(s =~= t1(s[0]) + s.skip(1));
        assert(t =~= t1(t[0]) + t.skip(1));
        lemma_u8s_add(t1(s[0]), s.skip(1));
        lemma_u8s_add(t1(t[0]), t.skip(1));
        let m = u8s(t1(s[0])).len() as int;
        assert(u8s(s.skip(1)) =~= b.subrange(m, b.len() as int));
        assert(u8s(t.skip(1)) =~= b.subrange(m, b.len() as int));
        u8s_inj(s.skip(1), t.skip(1));
    }
}
