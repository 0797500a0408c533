// ---------------------------------------------------------------------------
// Contracts assumed for the Rust core library (the only trusted contracts).
// Every assumed body (external_body) is the real core function; on every run
// engine/src/bin/shims.rs evaluates each assumed contract against it.
// ---------------------------------------------------------------------------

pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn v_len(&self) -> (r: usize)
        ensures r == off(self.sv(), self.sv().len() as int), r == u8s(self.sv()).len(), r <= isize::MAX;
    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.sv().len() == 0);
    fn v_as_bytes(&self) -> (r: &[u8])
        ensures r@ == u8s(self.sv()), r@.len() <= isize::MAX;
    fn v_is_char_boundary(&self, i: usize) -> (r: bool)
        ensures r == is_off(self.sv(), i as int);
    fn v_char_indices(&self) -> (r: VCharIndices<'_>)
        ensures r.seq() == self.sv(), r.pos() == 0, off(self.sv(), self.sv().len() as int) <= isize::MAX;
    fn v_chars(&self) -> (r: VChars<'_>)
        ensures r.seq() == self.sv(), r.pos() == 0, off(self.sv(), self.sv().len() as int) <= isize::MAX;
    fn v_str_to(&self, n: usize) -> (r: &str)
        requires is_off(self.sv(), n as int)
        ensures u8s(r@) == u8s(self.sv()).subrange(0, n as int),
            forall|k: int| 0 <= k <= self.sv().len() && #[trigger] off(self.sv(), k) == n ==> r@ == self.sv().take(k);
    fn v_str_from(&self, n: usize) -> (r: &str)
        requires is_off(self.sv(), n as int)
        ensures u8s(r@) == u8s(self.sv()).skip(n as int),
            forall|k: int| 0 <= k <= self.sv().len() && #[trigger] off(self.sv(), k) == n ==> r@ == self.sv().skip(k);
}

pub open spec fn is_off(s: Seq<char>, i: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == i
}

impl VStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    fn v_len(&self) -> (r: usize) { proof { lemma_spec_bytes(self@); lemma_u8s_len(self@); ax_str_len(self); } self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
    fn v_as_bytes(&self) -> (r: &[u8]) { proof { lemma_spec_bytes(self@); lemma_u8s_len(self@); ax_str_len(self); } self.as_bytes() }
    fn v_is_char_boundary(&self, i: usize) -> (r: bool) /*=str.boundary*/ { proof { lemma_spec_bytes(self@); lemma_boundary(self@, i as int); } self.is_char_boundary(i) }
    #[verifier::external_body] fn v_char_indices(&self) -> (r: VCharIndices<'_>) /*@ci.new*/ { VCharIndices { it: self.char_indices() } }
    fn v_chars(&self) -> (r: VChars<'_>) { proof { ax_str_len(self); } VChars::of(self) }
    #[verifier::external_body] fn v_str_to(&self, n: usize) -> (r: &str) /*@str.to*/ { &self[..n] }
    #[verifier::external_body] fn v_str_from(&self, n: usize) -> (r: &str) /*@str.from*/ { &self[n..] }
}

pub trait VSlice<T> {
    spec fn tv(&self) -> Seq<T>;
    fn v_len(&self) -> (r: usize)
        ensures r == self.tv().len(), r <= isize::MAX;
    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.tv().len() == 0);
    fn v_iter(&self) -> (r: VIter<'_, T>)
        ensures r.seq() == self.tv(), r.pos() == 0, self.tv().len() <= isize::MAX;
    fn v_chunks(&self, n: usize) -> (r: VChunks<'_, T>)
        requires n > 0
        ensures r.seq() == self.tv(), r.pos() == 0, r.n() == n, self.tv().len() <= isize::MAX;
    fn v_get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => i < self.tv().len() && *x == self.tv()[i as int], None => i >= self.tv().len() };
    fn v_first(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => 0 < self.tv().len() && *x == self.tv()[0], None => self.tv().len() == 0 };
    fn v_last(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => 0 < self.tv().len() && *x == self.tv().last(), None => self.tv().len() == 0 };
    fn v_get_range(&self, lo: usize, hi: usize) -> (r: Option<&[T]>)
        ensures match r { Some(x) => lo <= hi <= self.tv().len() && x@ == self.tv().subrange(lo as int, hi as int), None => !(lo <= hi <= self.tv().len()) };
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>)
        ensures match r { Some((x, y)) => 0 < self.tv().len() && *x == self.tv()[0] && y@ == self.tv().skip(1), None => self.tv().len() == 0 };
    fn v_get_unchecked(&self, i: usize) -> (r: &T)
        requires i < self.tv().len()
        ensures *r == self.tv()[i as int];
    fn v_split_at(&self, i: usize) -> (r: (&[T], &[T]))
        requires i <= self.tv().len()
        ensures r.0@ == self.tv().subrange(0, i as int), r.1@ == self.tv().subrange(i as int, self.tv().len() as int);
}
impl<T> VSlice<T> for [T] {
    open spec fn tv(&self) -> Seq<T> { self@ }
    fn v_len(&self) -> (r: usize) { proof { ax_slice_len(self); } self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
    fn v_iter(&self) -> (r: VIter<'_, T>) { proof { ax_slice_len(self); } VIter::of(self) }
    #[verifier::external_body] fn v_chunks(&self, n: usize) -> (r: VChunks<'_, T>) /*@chunks.new*/ { VChunks { it: self.chunks(n) } }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) }
    fn v_first(&self) -> (r: Option<&T>) { self.first() }
    fn v_last(&self) -> (r: Option<&T>) { self.last() }
    fn v_get_range(&self, lo: usize, hi: usize) -> (r: Option<&[T]>) { self.get(lo..hi) }
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>) { self.split_first() }
    #[verifier::external_body] fn v_get_unchecked(&self, i: usize) -> (r: &T) { unsafe { self.get_unchecked(i) } }
    fn v_split_at(&self, i: usize) -> (r: (&[T], &[T])) { self.split_at(i) }
}

/// `&[]`.
pub fn v_empty<'a, T>() -> (r: &'a [T])
    ensures r@ == Seq::<T>::empty()
{
    let r: &'a [T; 0] = &[];
    proof { assert(r@ =~= Seq::<T>::empty()); }
    r.as_slice()
}
/// `d[lo..hi].copy_from_slice(s)`; it panics unless the precondition holds.
pub fn v_copy(d: &mut [u8], lo: usize, hi: usize, s: &[u8])
    requires lo <= hi <= old(d)@.len(), s@.len() == hi - lo
    ensures final(d)@.len() == old(d)@.len(), final(d)@.subrange(lo as int, hi as int) == s@,
        forall|j: int| 0 <= j < final(d)@.len() ==> #[trigger] final(d)@[j] == (if lo <= j < hi { s@[j - lo] } else { old(d)@[j] }),
{ d[lo..hi].copy_from_slice(s) }
/// `&mut d[lo..hi]`.  (What the borrower leaves in it ends up in `d`; a slice
/// cannot change its length.)
pub fn v_slice_mut<'a>(d: &'a mut [u8], lo: usize, hi: usize) -> (r: &'a mut [u8])
    requires lo <= hi <= old(d)@.len()
    ensures r@ == old(d)@.subrange(lo as int, hi as int),
        final(r)@.len() == hi - lo ==> final(d)@ == old(d)@.subrange(0, lo as int) + final(r)@ + old(d)@.subrange(hi as int, old(d)@.len() as int),
{ &mut d[lo..hi] }
/// `d.get_mut(lo..hi)`.
pub fn v_get_mut_range<'a>(d: &'a mut [u8], lo: usize, hi: usize) -> (r: Option<&'a mut [u8]>)
    ensures match r {
        Some(r) => lo <= hi <= old(d)@.len() && r@ == old(d)@.subrange(lo as int, hi as int)
            && (final(r)@.len() == hi - lo ==> final(d)@ == old(d)@.subrange(0, lo as int) + final(r)@ + old(d)@.subrange(hi as int, old(d)@.len() as int)),
        None => !(lo <= hi <= old(d)@.len()) && final(d)@ == old(d)@ }
{ d.get_mut(lo..hi) }
pub trait VSliceMut {
    spec fn bv(&self) -> Seq<u8>;
    fn v_copy_from_slice(&mut self, s: &[u8])
        requires s@.len() == old(self).bv().len()
        ensures final(self).bv() == s@;
    fn v_fill(&mut self, v: u8)
        ensures final(self).bv().len() == old(self).bv().len(), forall|j: int| 0 <= j < final(self).bv().len() ==> #[trigger] final(self).bv()[j] == v;
    fn v_split_at_mut<'a>(&'a mut self, i: usize) -> (r: (&'a mut [u8], &'a mut [u8]))
        requires i <= old(self).bv().len()
        ensures r.0@ == old(self).bv().subrange(0, i as int), r.1@ == old(self).bv().subrange(i as int, old(self).bv().len() as int),
            final(r.0)@.len() == i && final(r.1)@.len() == old(self).bv().len() - i ==> final(self).bv() == final(r.0)@ + final(r.1)@;
}
impl VSliceMut for [u8] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    fn v_copy_from_slice(&mut self, s: &[u8]) { self.copy_from_slice(s) }
    #[verifier::external_body] fn v_fill(&mut self, v: u8) { self.fill(v) }
    fn v_split_at_mut<'a>(&'a mut self, i: usize) -> (r: (&'a mut [u8], &'a mut [u8])) { self.split_at_mut(i) }
}
/// A failing assertion in the code.
pub fn v_panic()
    requires false
{ panic!() }
pub trait VOrd: Sized {
    spec fn ov(self) -> int;
    fn v_min(self, b: Self) -> (r: Self) ensures r == (if self.ov() <= b.ov() { self } else { b });
    fn v_max(self, b: Self) -> (r: Self) ensures r == (if self.ov() > b.ov() { self } else { b });
}
impl VOrd for usize {
    open spec fn ov(self) -> int { self as int }
    fn v_min(self, b: Self) -> (r: Self) { if self <= b { self } else { b } }
    fn v_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
}
impl VOrd for u32 {
    open spec fn ov(self) -> int { self as int }
    fn v_min(self, b: Self) -> (r: Self) { if self <= b { self } else { b } }
    fn v_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
}
impl VOrd for u8 {
    open spec fn ov(self) -> int { self as int }
    fn v_min(self, b: Self) -> (r: Self) { if self <= b { self } else { b } }
    fn v_max(self, b: Self) -> (r: Self) { if self > b { self } else { b } }
}
pub trait VByte: Sized {
    spec fn yv(self) -> int;
    fn v_is_ascii(self) -> (r: bool) ensures r == (self.yv() < 0x80);
}
impl VByte for u8 {
    open spec fn yv(self) -> int { self as int }
    fn v_is_ascii(self) -> (r: bool) { self < 0x80 }
}
pub trait VOptRef<T>: Sized {
    spec fn rv(self) -> Option<T>;
    fn v_copied(self) -> (r: Option<T>) ensures r == self.rv();
    fn v_cloned(self) -> (r: Option<T>) ensures r == self.rv();
}
impl<'x, T: Copy> VOptRef<T> for Option<&'x T> {
    open spec fn rv(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn v_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
    fn v_cloned(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }

/*@ci.type*/
#[verifier::external_body]
pub struct VCharIndices<'a> { it: core::str::CharIndices<'a> }
impl<'a> VCharIndices<'a> {
    pub fn v_enumerate(self) -> (r: VEnumCI<'a>)
        requires self.pos() == 0
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VEnumCI { it: self, n: 0 } }
    pub fn v_peekable(self) -> (r: VPeekCI<'a>)
        ensures r.seq() == self.seq(), r.pos() == self.pos(), r.ok()
    { let ghost v_p = self.pos(); VPeekCI { it: self, buf: None, p: Ghost(v_p) } }
    #[verifier::external_body]
    fn raw_as_str(&self) -> (r: &'a str)
        ensures 0 <= self.pos() <= self.seq().len() ==> r@ == self.seq().skip(self.pos())
    /*@ci.as_str*/ { self.it.as_str() }
    /// (proved: how long what is left is)
    pub fn v_as_str(&self) -> (r: &'a str)
        ensures 0 <= self.pos() <= self.seq().len() ==> r@ == self.seq().skip(self.pos())
            && off(r@, r@.len() as int) == off(self.seq(), self.seq().len() as int) - off(self.seq(), self.pos())
    {
        let r = self.raw_as_str();
        proof { if 0 <= self.pos() <= self.seq().len() { lemma_off_skip(self.seq(), self.pos(), self.seq().len() - self.pos()); } }
        r
    }
    #[verifier::external_body]
    pub fn offset(&self) -> (r: usize)
        ensures 0 <= self.pos() <= self.seq().len() ==> r == off(self.seq(), self.pos())
    /*@ci.offset*/ { self.it.offset() }
    /*@ci.seq*/ pub uninterp spec fn seq(self) -> Seq<char>;
    /*@ci.pos*/ pub uninterp spec fn pos(self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some((o, c)) => old(self).pos() < old(self).seq().len()
                    && final(self).pos() == old(self).pos() + 1
                    && o == off(old(self).seq(), old(self).pos())
                    && c == old(self).seq()[old(self).pos()]
                    && o + clen(c) <= isize::MAX,
            },
    /*@ci.next*/ { self.it.next() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    /*@ci.clone*/ { VCharIndices { it: self.it.clone() } }
}

/*@chars.type*/
/// (Proved over vstd's specification of the iterator, but for what its clone
/// and as_str give.)
pub struct VChars<'a> { it: core::str::Chars<'a>, s: Ghost<Seq<char>>, p: Ghost<int> }
/*@chars.c*/
#[verifier::external_body]
fn chars_clone<'a>(i: &core::str::Chars<'a>) -> (r: core::str::Chars<'a>)
    ensures r.remaining() == i.remaining()
{ i.clone() }
/*@chars.a*/
#[verifier::external_body]
fn chars_as_str<'a>(i: &core::str::Chars<'a>) -> (r: &'a str)
    ensures r@ == i.remaining()
{ i.as_str() }
impl<'a> VChars<'a> {
    /*@chars.inv*/
    #[verifier::type_invariant]
    #[verifier::prophetic]
    closed spec fn inv(self) -> bool {
        0 <= self.p@ <= self.s@.len() && self.it.remaining() == self.s@.skip(self.p@)
    }
    /*@chars.seq*/ pub closed spec fn seq(self) -> Seq<char> { self.s@ }
    /*@chars.pos*/ pub closed spec fn pos(self) -> int { self.p@ }
    fn of(x: &'a str) -> (r: Self)
        ensures r.seq() == x@, r.pos() == 0
    /*=chars.of*/ { let it = x.chars(); proof { assert(x@.skip(0) =~= x@); } VChars { it, s: Ghost(x@), p: Ghost(0int) } }
    pub fn v_peekable(self) -> (r: VPeekC<'a>)
        ensures r.seq() == self.seq(), r.pos() == self.pos(), r.ok()
    { let ghost v_p = self.pos(); VPeekC { it: self, buf: None, p: Ghost(v_p) } }
    /// (proved: how long what is left is)
    pub fn v_as_str(&self) -> (r: &'a str)
        ensures 0 <= self.pos() <= self.seq().len() ==> r@ == self.seq().skip(self.pos())
            && off(r@, r@.len() as int) == off(self.seq(), self.seq().len() as int) - off(self.seq(), self.pos())
    /*=chars.as_str*/ {
        proof { use_type_invariant(&*self); }
        let r = chars_as_str(&self.it);
        proof { if 0 <= self.pos() <= self.seq().len() { lemma_off_skip(self.seq(), self.pos(), self.seq().len() - self.pos()); } }
        r
    }
    pub fn next(&mut self) -> (r: Option<char>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(c) => old(self).pos() < old(self).seq().len()
                    && final(self).pos() == old(self).pos() + 1
                    && c == old(self).seq()[old(self).pos()],
            },
    /*=chars.next*/ {
        proof { use_type_invariant(&*self); }
        let mut it = chars_clone(&self.it);
        let r = it.next();
        let ghost q = if r is Some { self.p@ + 1 } else { self.p@ };
        proof { if r is Some { assert(self.s@.skip(self.p@).drop_first() =~= self.s@.skip(q)); } }
        *self = VChars { it, s: Ghost(self.s@), p: Ghost(q) };
        r
    }
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    /*=chars.clone*/ { proof { use_type_invariant(&*self); } VChars { it: chars_clone(&self.it), s: Ghost(self.s@), p: Ghost(self.p@) } }
}

/// `pos` is the index of the element that comes next.  (Proved over vstd's
/// specification of the iterator, but for what its clone and as_slice give.)
#[verifier::accept_recursive_types(T)]
pub struct VIter<'a, T> { it: core::slice::Iter<'a, T>, s: Ghost<Seq<T>>, p: Ghost<int> }
#[verifier::external_body]
fn iter_clone<'a, T>(i: &core::slice::Iter<'a, T>) -> (r: core::slice::Iter<'a, T>)
    ensures r.remaining() == i.remaining()
{ i.clone() }
#[verifier::external_body]
fn iter_as_slice<'a, T>(i: &core::slice::Iter<'a, T>) -> (r: &'a [T])
    ensures r@.len() == i.remaining().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == *i.remaining()[k]
{ i.as_slice() }
impl<'a, T> VIter<'a, T> {
    #[verifier::type_invariant]
    #[verifier::prophetic]
    closed spec fn inv(self) -> bool {
        0 <= self.p@ <= self.s@.len() && self.it.remaining().len() == self.s@.len() - self.p@
        && forall|k: int| 0 <= k < self.s@.len() - self.p@ ==> *#[trigger] self.it.remaining()[k] == self.s@[self.p@ + k]
    }
    pub closed spec fn seq(self) -> Seq<T> { self.s@ }
    pub closed spec fn pos(self) -> int { self.p@ }
    fn of(x: &'a [T]) -> (r: Self)
        ensures r.seq() == x@, r.pos() == 0
    { let it = x.iter(); VIter { it, s: Ghost(x@), p: Ghost(0int) } }
    pub fn v_as_slice(&self) -> (r: &'a [T])
        ensures 0 <= self.pos() <= self.seq().len() ==> r@ == self.seq().skip(self.pos())
    {
        proof { use_type_invariant(&*self); }
        let r = iter_as_slice(&self.it);
        proof { assert(r@ =~= self.seq().skip(self.pos())); }
        r
    }
    /// (proved, from v_as_slice)
    pub fn v_len(&self) -> (r: usize)
        requires 0 <= self.pos() <= self.seq().len()
        ensures r == self.seq().len() - self.pos()
    { self.v_as_slice().v_len() }
    pub fn v_copied(self) -> (r: VCopied<'a, T>) where T: Copy
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VCopied { it: self } }
    pub fn v_cloned(self) -> (r: VCopied<'a, T>) where T: Copy
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VCopied { it: self } }
    pub fn v_enumerate(self) -> (r: VEnum<'a, T>)
        requires self.pos() == 0
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VEnum { it: self, n: 0, bad: Ghost(false) } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(c) => old(self).pos() < old(self).seq().len()
                    && final(self).pos() == old(self).pos() + 1
                    && *c == old(self).seq()[old(self).pos()],
            },
    {
        proof { use_type_invariant(&*self); }
        let mut it = iter_clone(&self.it);
        let r = it.next();
        let ghost q = if r is Some { self.p@ + 1 } else { self.p@ };
        *self = VIter { it, s: Ghost(self.s@), p: Ghost(q) };
        r
    }
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { proof { use_type_invariant(&*self); } VIter { it: iter_clone(&self.it), s: Ghost(self.s@), p: Ghost(self.p@) } }
}

/// `pos` is the index of the first element not yet yielded.
/*@chunks.type*/
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VChunks<'a, T> { it: core::slice::Chunks<'a, T> }
impl<'a, T> VChunks<'a, T> {
    /*@chunks.seq*/ pub uninterp spec fn seq(self) -> Seq<T>;
    /*@chunks.pos*/ pub uninterp spec fn pos(self) -> int;
    /*@chunks.n*/ pub uninterp spec fn n(self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), final(self).n() == old(self).n(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(c) => old(self).pos() < old(self).seq().len()
                    && final(self).pos() == (if old(self).pos() + old(self).n() <= old(self).seq().len()
                        { old(self).pos() + old(self).n() } else { old(self).seq().len() as int })
                    && c@ == old(self).seq().subrange(old(self).pos(), final(self).pos()),
            },
    /*@chunks.next*/ { self.it.next() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos(), r.n() == self.n()
    /*@chunks.clone*/ { VChunks { it: self.it.clone() } }
    pub fn v_enumerate(self) -> (r: VEnumK<'a, T>)
        requires self.pos() == 0, self.n() > 0
        ensures r.seq() == self.seq(), r.pos() == self.pos(), r.n() == self.n()
    { VEnumK { it: self, k: 0 } }
}
/// (proved, over the chunks)  The count times the size is the position.
#[verifier::accept_recursive_types(T)]
pub struct VEnumK<'a, T> { it: VChunks<'a, T>, k: usize }
impl<'a, T> VEnumK<'a, T> {
    pub closed spec fn seq(self) -> Seq<T> { self.it.seq() }
    pub closed spec fn n(self) -> int { self.it.n() }
    /// (-1: not a position; then nothing may be asked of it)
    pub closed spec fn pos(self) -> int {
        let m = self.k * self.n();
        if self.n() > 0 && (if m < self.seq().len() { self.it.pos() == m } else { self.it.pos() == self.seq().len() }) { self.it.pos() } else { -1 }
    }
    pub fn next(&mut self) -> (r: Option<(usize, &'a [T])>)
        requires 0 <= old(self).pos() <= old(self).seq().len(), old(self).seq().len() <= isize::MAX
        ensures final(self).seq() == old(self).seq(), final(self).n() == old(self).n(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some((i, c)) => i * old(self).n() == old(self).pos() && old(self).pos() < old(self).seq().len()
                    && final(self).pos() == (if old(self).pos() + old(self).n() <= old(self).seq().len()
                        { old(self).pos() + old(self).n() } else { old(self).seq().len() as int })
                    && c@ == old(self).seq().subrange(old(self).pos(), final(self).pos()),
            },
    {
        let ghost n = self.n();
        match self.it.next() {
            Some(x) => {
                let i = self.k;
                proof {
                    assert(i * n >= i) by(nonlinear_arith) requires n > 0, i >= 0;
                    assert((i + 1) * n == i * n + n) by(nonlinear_arith);
                }
                self.k = i + 1;
                Some((i, x))
            }
            None => None,
        }
    }
}

pub trait VChar: Sized {
    spec fn cv(self) -> char;
    fn v_encode_utf8<'a>(self, buf: &'a mut [u8]) -> (r: &'a str)
        requires old(buf)@.len() >= clen(self.cv())
        ensures r@ == t1(self.cv()), final(buf)@ == u8c(self.cv()) + old(buf)@.subrange(clen(self.cv()), old(buf)@.len() as int);
    fn v_encode_utf16<'a>(self, buf: &'a mut [u16]) -> (r: &'a mut [u16])
        requires old(buf)@.len() >= (if (self.cv() as u32) < 0x10000 { 1int } else { 2int })
        ensures
            r@.len() == (if (self.cv() as u32) < 0x10000 { 1int } else { 2int }),
            (self.cv() as u32) < 0x10000 ==> r@[0] == self.cv() as u32,
            (self.cv() as u32) >= 0x10000 ==> r@[0] == 0xD800 + ((self.cv() as u32) - 0x10000) / 0x400 && r@[1] == 0xDC00 + ((self.cv() as u32) - 0x10000) % 0x400,
            final(r)@.len() == r@.len() ==> final(buf)@.len() == old(buf)@.len()
                && final(buf)@.subrange(0, r@.len() as int) =~= final(r)@
                && forall|i: int| r@.len() <= i < final(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i];
    fn v_len_utf8(self) -> (r: usize) ensures r == clen(self.cv());
    fn v_len_utf16(self) -> (r: usize) ensures r == (if (self.cv() as u32) < 0x10000 { 1int } else { 2int });
    fn v_is_ascii(self) -> (r: bool) ensures r == ((self.cv() as u32) < 0x80);
}
impl VChar for char {
    open spec fn cv(self) -> char { self }
    #[verifier::external_body] fn v_encode_utf8<'a>(self, buf: &'a mut [u8]) -> (r: &'a str) /*@char.encode_utf8*/ { self.encode_utf8(buf) }
    #[verifier::external_body] fn v_encode_utf16<'a>(self, buf: &'a mut [u16]) -> (r: &'a mut [u16]) /*@char.encode_utf16*/ { self.encode_utf16(buf) }
    fn v_len_utf8(self) -> (r: usize) { self.len_utf8() }
    #[verifier::external_body] fn v_len_utf16(self) -> (r: usize) /*@char.len_utf16*/ { self.len_utf16() }
    #[verifier::external_body] fn v_is_ascii(self) -> (r: bool) /*@char.is_ascii*/ { self.is_ascii() }
}

pub trait VU16: Sized {
    spec fn nv(self) -> int;
    fn v_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ =~= bytes2(false, self.nv());
    fn v_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ =~= bytes2(true, self.nv());
}
impl VU16 for u16 {
    open spec fn nv(self) -> int { self as int }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}
pub trait VU32: Sized {
    spec fn nv(self) -> int;
    fn v_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ =~= bytes4(false, self.nv());
    fn v_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ =~= bytes4(true, self.nv());
}
impl VU32 for u32 {
    open spec fn nv(self) -> int { self as int }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
#[verifier::external_body] pub fn v_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == unit2(false, b@, 0) { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == unit2(true, b@, 0) { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn v_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == unit4(false, b@, 0) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == unit4(true, b@, 0) { u32::from_be_bytes(b) }

#[verifier::external_body]
pub fn v_from_u32(v: u32) -> (r: Option<char>)
    ensures match r { Some(c) => scalar(v as int) && c as u32 == v && c == (v as char), None => !scalar(v as int) }
/*@char.from_u32*/ { core::char::from_u32(v) }
#[verifier::external_body]
pub fn v_from_u32_unchecked(v: u32) -> (r: char)
    requires scalar(v as int)
    ensures r as u32 == v, r == (v as char)
{ unsafe { core::char::from_u32_unchecked(v) } }

/// `core::str::from_utf8_unchecked`; its safety condition is the precondition.
#[verifier::external_body]
pub fn v_from_utf8_unchecked(b: &[u8]) -> (r: &str)
    requires wf(b@)
    ensures u8s(r@) == b@
{ unsafe { core::str::from_utf8_unchecked(b) } }

/*@utf8.type*/
#[verifier::external_body]
pub struct VUtf8Error { e: core::str::Utf8Error }
impl VUtf8Error {
    /*@utf8.at*/ pub uninterp spec fn at(self) -> int;
    /*@utf8.len*/ pub uninterp spec fn len(self) -> Option<u8>;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.at() /*@utf8.valid_up_to*/ { self.e.valid_up_to() }
    #[verifier::external_body]
    pub fn error_len(&self) -> (r: Option<usize>)
        ensures match r { Some(n) => self.len() == Some(n as u8) && 1 <= n <= 3, None => self.len() is None }
    /*@utf8.error_len*/ { self.e.error_len() }
}
#[verifier::external_body]
pub fn v_from_utf8(b: &[u8]) -> (r: Result<&str, VUtf8Error>)
    ensures b@.len() <= isize::MAX,
        match r {
            Ok(t) => u8s(t@) == b@ && drun(DEnc::Utf8, b@, 0, b@.len() as int) == Some(b@.subrange(0, b@.len() as int)),
            Err(e) => 0 <= e.at() < b@.len()
                && drun(DEnc::Utf8, b@, 0, e.at()) == Some(b@.subrange(0, e.at()))
                && match dstep_utf8(b@, e.at()) {
                    DStep::Emit { n, t } => false,
                    DStep::Bad => e.len() is Some,
                    DStep::Incomplete => e.len() is None,
                },
        }
/*@utf8.from*/ { match core::str::from_utf8(b) { Ok(t) => Ok(t), Err(e) => Err(VUtf8Error { e }) } }

// Binary search by the first component of a sorted table.
/*@pre*/
#[verifier::external_body]
pub fn raw_search1(t: &[(char, u8)], c: &char) -> (r: Result<usize, usize>)
    requires sorted1(t@)
    ensures match r {
        Ok(i) => i < t@.len() && t@[i as int].0 == *c,
        Err(_) => forall|i: int| 0 <= i < t@.len() ==> (#[trigger] t@[i]).0 != *c,
    }
/*@search.1*/ { t.binary_search_by_key(c, |x| x.0) }
#[verifier::external_body]
pub fn raw_search2(t: &[(char, [u8; 2])], c: &char) -> (r: Result<usize, usize>)
    requires sorted2(t@)
    ensures match r {
        Ok(i) => i < t@.len() && t@[i as int].0 == *c,
        Err(_) => forall|i: int| 0 <= i < t@.len() ==> (#[trigger] t@[i]).0 != *c,
    }
/*@search.2*/ { t.binary_search_by_key(c, |x| x.0) }

pub trait VTable {
    type C;
    spec fn srt(&self) -> bool;
    spec fn has(&self, c: char) -> bool;
    spec fn at(&self, i: int, c: char) -> bool;
    /// binary_search_by_key(c, |x| x.0)
    fn v_search(&self, c: &char) -> (r: Result<usize, usize>)
        requires self.srt()
        ensures match r { Ok(i) => self.has(*c) && self.at(i as int, *c), Err(_) => !self.has(*c) };
}
impl VTable for [(char, u8)] {
    type C = u8;
    open spec fn srt(&self) -> bool { sorted1(self@) }
    open spec fn has(&self, c: char) -> bool { has1(self@, c) }
    open spec fn at(&self, i: int, c: char) -> bool { 0 <= i < self@.len() && self@[i].0 == c && get1(self@, c) == self@[i].1 }
    fn v_search(&self, c: &char) -> (r: Result<usize, usize>) {
        let r = raw_search1(self, c);
        proof { reveal(has1); if r is Ok { lemma_get1(self@, r->Ok_0 as int); } }
        r
    }
}
impl VTable for [(char, [u8; 2])] {
    type C = [u8; 2];
    open spec fn srt(&self) -> bool { sorted2(self@) }
    open spec fn has(&self, c: char) -> bool { has2(self@, c) }
    open spec fn at(&self, i: int, c: char) -> bool { 0 <= i < self@.len() && self@[i].0 == c && get2(self@, c) == self@[i].1@ }
    fn v_search(&self, c: &char) -> (r: Result<usize, usize>) {
        let r = raw_search2(self, c);
        proof { reveal(has2); if r is Ok { lemma_get2(self@, r->Ok_0 as int); } }
        r
    }
}

// Iterator adaptors.  These are not assumed: each is written and proved over
// the iterator it adapts.

#[verifier::accept_recursive_types(T)]
pub struct VCopied<'a, T> { pub it: VIter<'a, T> }
impl<'a, T: Copy> VCopied<'a, T> {
    pub open spec fn seq(self) -> Seq<T> { self.it.seq() }
    pub open spec fn pos(self) -> int { self.it.pos() }
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(c) => old(self).pos() < old(self).seq().len() && final(self).pos() == old(self).pos() + 1 && c == old(self).seq()[old(self).pos()],
            },
    { match self.it.next() { Some(x) => Some(*x), None => None } }
    pub fn v_len(&self) -> (r: usize)
        requires 0 <= self.pos() <= self.seq().len()
        ensures r == self.seq().len() - self.pos()
    { self.it.v_len() }
    pub fn v_enumerate(self) -> (r: VEnumC<'a, T>)
        requires self.pos() == 0
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VEnumC { it: self.it.v_enumerate() } }
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VCopied { it: self.it.clone() } }
}
/// Counts what it yields; the count is the position.
#[verifier::accept_recursive_types(T)]
pub struct VEnum<'a, T> { it: VIter<'a, T>, n: usize, bad: Ghost<bool> }
impl<'a, T> VEnum<'a, T> {
    pub closed spec fn seq(self) -> Seq<T> { self.it.seq() }
    /// (-1: not a position; then nothing may be asked of it)
    pub closed spec fn pos(self) -> int { if self.n == self.it.pos() { self.it.pos() } else { -1 } }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires 0 <= old(self).pos() <= old(self).seq().len(), old(self).seq().len() <= isize::MAX
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some((i, c)) => i == old(self).pos() && old(self).pos() < old(self).seq().len() && final(self).pos() == old(self).pos() + 1 && *c == old(self).seq()[old(self).pos()],
            },
    { match self.it.next() { Some(x) => { let i = self.n; self.n = i + 1; Some((i, x)) } None => None } }
}
#[verifier::accept_recursive_types(T)]
pub struct VEnumC<'a, T> { it: VEnum<'a, T> }
impl<'a, T: Copy> VEnumC<'a, T> {
    pub closed spec fn seq(self) -> Seq<T> { self.it.seq() }
    pub closed spec fn pos(self) -> int { self.it.pos() }
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        requires 0 <= old(self).pos() <= old(self).seq().len(), old(self).seq().len() <= isize::MAX
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some((i, c)) => i == old(self).pos() && old(self).pos() < old(self).seq().len() && final(self).pos() == old(self).pos() + 1 && c == old(self).seq()[old(self).pos()],
            },
    { match self.it.next() { Some((i, x)) => Some((i, *x)), None => None } }
}

/// (proved, over the char indices)
pub struct VEnumCI<'a> { it: VCharIndices<'a>, n: usize }
impl<'a> VEnumCI<'a> {
    pub closed spec fn seq(self) -> Seq<char> { self.it.seq() }
    /// (-1: not a position; then nothing may be asked of it)
    pub closed spec fn pos(self) -> int { if self.n == self.it.pos() { self.it.pos() } else { -1 } }
    pub fn next(&mut self) -> (r: Option<(usize, (usize, char))>)
        requires 0 <= old(self).pos() <= old(self).seq().len(), off(old(self).seq(), old(self).seq().len() as int) <= isize::MAX
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some((n, (o, c))) => n == old(self).pos() && old(self).pos() < old(self).seq().len()
                    && final(self).pos() == old(self).pos() + 1
                    && o == off(old(self).seq(), old(self).pos())
                    && c == old(self).seq()[old(self).pos()]
                    && o + clen(c) <= isize::MAX,
            },
    {
        proof { lemma_off_mono(self.seq(), 0, self.seq().len() as int); lemma_off_step(self.seq(), 0); }
        match self.it.next() { Some(x) => { let i = self.n; self.n = i + 1; Some((i, x)) } None => None }
    }
}

pub struct VPeekCI<'a> { it: VCharIndices<'a>, buf: Option<Option<(usize, char)>>, p: Ghost<int> }
impl<'a> VPeekCI<'a> {
    pub closed spec fn seq(self) -> Seq<char> { self.it.seq() }
    /// The position of the item that comes next.
    pub closed spec fn pos(self) -> int { if self.ok() { self.p@ } else { -1 } }
    pub closed spec fn ok(self) -> bool {
        match self.buf {
            None => self.p@ == self.it.pos(),
            Some(None) => self.p@ == self.it.pos() && self.p@ == self.it.seq().len(),
            Some(Some(x)) => 0 <= self.p@ < self.it.seq().len() && self.p@ + 1 == self.it.pos() && x.0 == off(self.it.seq(), self.p@) && x.1 == self.it.seq()[self.p@] && x.0 + clen(x.1) <= isize::MAX,
        }
    }
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(x) => old(self).pos() < old(self).seq().len() && final(self).pos() == old(self).pos() + 1 && x.0 == off(old(self).seq(), old(self).pos()) && x.1 == old(self).seq()[old(self).pos()] && x.0 + clen(x.1) <= isize::MAX,
            },
    {
        let ghost q = self.pos();
        let r = match self.buf { Some(x) => { self.buf = None; x } None => self.it.next() };
        proof { if r is Some { self.p@ = q + 1; } }
        r
    }
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos(),
            match r {
                None => old(self).pos() == old(self).seq().len(),
                Some(y) => ({ let x = *y; old(self).pos() < old(self).seq().len() && x.0 == off(old(self).seq(), old(self).pos()) && x.1 == old(self).seq()[old(self).pos()] && x.0 + clen(x.1) <= isize::MAX }),
            },
    {
        match self.buf { None => { let x = self.it.next(); self.buf = Some(x); } Some(_) => {} }
        match &self.buf { Some(Some(x)) => Some(x), _ => None }
    }
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VPeekCI { it: self.it.clone(), buf: self.buf, p: Ghost(self.p@) } }
}

pub struct VPeekC<'a> { it: VChars<'a>, buf: Option<Option<char>>, p: Ghost<int> }
impl<'a> VPeekC<'a> {
    pub closed spec fn seq(self) -> Seq<char> { self.it.seq() }
    /// The position of the item that comes next.
    pub closed spec fn pos(self) -> int { if self.ok() { self.p@ } else { -1 } }
    pub closed spec fn ok(self) -> bool {
        match self.buf {
            None => self.p@ == self.it.pos(),
            Some(None) => self.p@ == self.it.pos() && self.p@ == self.it.seq().len(),
            Some(Some(x)) => 0 <= self.p@ < self.it.seq().len() && self.p@ + 1 == self.it.pos() && x == self.it.seq()[self.p@],
        }
    }
    pub fn next(&mut self) -> (r: Option<char>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r {
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
                Some(x) => old(self).pos() < old(self).seq().len() && final(self).pos() == old(self).pos() + 1 && x == old(self).seq()[old(self).pos()],
            },
    {
        let ghost q = self.pos();
        let r = match self.buf { Some(x) => { self.buf = None; x } None => self.it.next() };
        proof { if r is Some { self.p@ = q + 1; } }
        r
    }
    pub fn peek(&mut self) -> (r: Option<&char>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos(),
            match r {
                None => old(self).pos() == old(self).seq().len(),
                Some(y) => ({ let x = *y; old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] }),
            },
    {
        match self.buf { None => { let x = self.it.next(); self.buf = Some(x); } Some(_) => {} }
        match &self.buf { Some(Some(x)) => Some(x), _ => None }
    }
    pub fn clone(&self) -> (r: Self)
        ensures r.seq() == self.seq(), r.pos() == self.pos()
    { VPeekC { it: self.it.clone(), buf: self.buf, p: Ghost(self.p@) } }
}
