// ------------------------------------------------------------------ vector.rs
//@ item vector.rs struct Vector pubfields
impl<'a, T> Copy for Vector<'a, T> {}
impl<'a, T> Clone for Vector<'a, T> {
//@ fn vector.rs Clone~for~Vector clone
    ensures r == *self,
//@ endfn
}
impl<'a, T: 'a> Vector<'a, T> {
    pub open spec fn ok(&self) -> bool { self.0@.len() <= BUFMAX() && self.1 <= LOCMAX() }
    pub open spec fn has_len(&self) -> bool { self.1 + 4 <= self.0@.len() }
    pub open spec fn count(&self) -> int { u32_at(self.0@, self.1 as int) }
    pub open spec fn elem(&self, i: int) -> int { self.1 + 4 + size_of::<T>() * i }
//@ fn vector.rs Vector new
    ensures r.0 == buf, r.1 == loc,
//@ endfn
//@ fn vector.rs Vector len
    requires self.ok(),
    ensures
        self.has_len() ==> r == Ok::<usize, Error>(self.count() as usize),
        !self.has_len() ==> r == Err::<usize, Error>(Error::OutOfBounds),
//@ endfn
//@ fn vector.rs Vector is_empty
    requires self.ok(),
    ensures
        self.has_len() ==> r == Ok::<bool, Error>(self.count() == 0),
        !self.has_len() ==> r == Err::<bool, Error>(Error::OutOfBounds),
//@ endfn
}
pub open spec fn elem_size_ok<T>() -> bool { 1 <= size_of::<T>() <= 0x1_0000 }
pub proof fn lemma_elem_bound(sz: int, i: int, n: int)
    requires 1 <= sz <= 0x1_0000, 0 <= i <= n,
    ensures 0 <= sz * i <= sz * n, sz * n <= 0x1_0000 * n, i < n ==> sz * i + sz <= sz * n, sz * (i + 1) == sz * i + sz,
{
    assert(0 <= sz * i <= sz * n && sz * n <= 0x1_0000 * n && (i < n ==> sz * i + sz <= sz * n) && sz * (i + 1) == sz * i + sz) by(nonlinear_arith)
        requires 1 <= sz <= 0x1_0000, 0 <= i <= n;
}
impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
    // every element may be followed
    pub open spec fn elems_req(&self) -> bool {
        self.ok() && elem_size_ok::<T>()
        && (self.has_len() ==> forall|i: int| 0 <= i < self.count() ==> T::follow_req(self.0@, #[trigger] self.elem(i)))
    }
//@ fn vector.rs Vector get
    requires
        self.elems_req(),
        self.has_len() ==> idx < self.count(),
    ensures
        self.has_len() ==> T::follow_post(self.0@, self.elem(idx as int), r),
        !self.has_len() ==> r == Err::<T::Inner, Error>(Error::OutOfBounds),
//@ hint start
    proof { if self.has_len() { lemma_elem_bound(size_of::<T>() as int, idx as int, self.count()); assert(T::follow_req(self.0@, self.elem(idx as int))); } }
//@ endfn
//@ fn vector.rs Vector iter
    requires self.elems_req(),
    ensures
        r.wf(), r.buf@ == self.0@,
        r.remaining == (if self.has_len() { self.count() } else { 0 }),
        r.loc == self.elem(0),
//@ hint start
    proof { if self.has_len() { lemma_elem_bound(size_of::<T>() as int, 0, self.count());
        assert forall|i: int| 0 <= i < self.count() implies T::follow_req(self.0@, #[trigger] (self.1 + 4 + size_of::<T>() * i)) by { assert(self.elem(i) == self.1 + 4 + size_of::<T>() * i); } } }
//@ endfn
}
//@ impl vector.rs Follow~for~Vector
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { true }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        r is Ok && r->Ok_0.0@ == buf && r->Ok_0.1 == loc
    }
//@ fn vector.rs Follow~for~Vector follow
//@ endfn
//@ end

//@ impl vector.rs Follow~for~&~str
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 0x1_0000_0010 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        if loc + 4 > buf.len() { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
        else {
            let e = loc + 4 + u32_at(buf, loc);
            if e >= buf.len() { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
            else if buf[e] != 0 { r == Err::<Self::Inner, Error>(Error::NonNullTerminatedString) }
            else if !vstd::utf8::valid_utf8(buf.subrange(loc + 4, e)) { r == Err::<Self::Inner, Error>(Error::NonUtf8String) }
            else { r is Ok && r->Ok_0.spec_bytes() == buf.subrange(loc + 4, e) }
        }
    }
//@ fn vector.rs Follow~for~&~str follow
//@ endfn
//@ end

//@ item vector.rs trait SafeSliceAccess
//@ item vector.rs struct VectorIter pubfields
impl<'a, T: Follow<'a> + 'a> VectorIter<'a, T> {
    // the elements still to come lie at loc, loc + size, ...
    pub open spec fn wf(&self) -> bool {
        elem_size_ok::<T>()
        && (self.remaining > 0 ==> self.loc + size_of::<T>() * self.remaining <= usize::MAX)
        && (forall|i: int| 0 <= i < self.remaining ==> T::follow_req(self.buf@, #[trigger] (self.loc + size_of::<T>() * i)))
    }
    pub open spec fn at(&self, i: int) -> int { self.loc + size_of::<T>() * i }
}
impl<'a, T: 'a> VectorIter<'a, T> {
//@ fn vector.rs VectorIter new
    requires inner.1 + 4 <= usize::MAX,
    ensures r.buf == inner.0, r.loc == inner.1 + 4, r.remaining == len,
//@ endfn
}
//@ impl vector.rs Clone~for~VectorIter
//@ fn vector.rs Clone~for~VectorIter clone
    ensures r.buf == self.buf, r.loc == self.loc, r.remaining == self.remaining,
//@ endfn
//@ end
pub proof fn lemma_shift<'a, T: Follow<'a>>(buf: Seq<u8>, loc: int, k: int, n: int)
    requires
        0 <= k <= n,
        forall|i: int| 0 <= i < n ==> T::follow_req(buf, #[trigger] (loc + size_of::<T>() * i)),
    ensures
        forall|i: int| 0 <= i < n - k ==> T::follow_req(buf, #[trigger] (loc + size_of::<T>() * k + size_of::<T>() * i)),
{
    assert forall|i: int| 0 <= i < n - k implies T::follow_req(buf, #[trigger] (loc + size_of::<T>() * k + size_of::<T>() * i)) by {
        assert(size_of::<T>() * k + size_of::<T>() * i == size_of::<T>() * (k + i)) by(nonlinear_arith);
        assert(T::follow_req(buf, loc + size_of::<T>() * (k + i)));
    }
}
impl<'a, T: Follow<'a> + 'a> VectorIter<'a, T> {
//@ fn vector.rs Iterator~for~VectorIter next
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).buf == old(self).buf,
        old(self).remaining == 0 ==> r is None && final(self).remaining == 0,
        old(self).remaining > 0 ==> r is Some && T::follow_post(old(self).buf@, old(self).at(0), r->Some_0)
            && final(self).remaining == old(self).remaining - 1 && final(self).loc == old(self).at(1),
//@ hint start
    proof {
        if self.remaining > 0 {
            lemma_elem_bound(size_of::<T>() as int, 0, self.remaining as int);
            lemma_elem_bound(size_of::<T>() as int, 1, self.remaining as int);
            lemma_elem_bound(size_of::<T>() as int, self.remaining as int - 1, self.remaining as int);
            assert(T::follow_req(self.buf@, self.loc + size_of::<T>() * 0));
            lemma_shift::<T>(self.buf@, self.loc as int, 1, self.remaining as int);
            assert(size_of::<T>() * 0 == 0 && size_of::<T>() * 1 == size_of::<T>()) by(nonlinear_arith);
        }
    }
//@ endfn
//@ fn vector.rs Iterator~for~VectorIter nth
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).buf == old(self).buf,
        n >= old(self).remaining ==> r is None && final(self).remaining == 0,
        n < old(self).remaining ==> r is Some && T::follow_post(old(self).buf@, old(self).at(n as int), r->Some_0)
            && final(self).remaining == old(self).remaining - n - 1 && final(self).loc == old(self).at(n + 1),
//@ hint start
    proof {
        if n < self.remaining {
            lemma_elem_bound(size_of::<T>() as int, n as int, self.remaining as int);
            assert((size_of::<T>() * n) % (usize::MAX + 1) == size_of::<T>() * n) by(nonlinear_arith) requires 0 <= size_of::<T>() * n <= usize::MAX;
            lemma_elem_bound(size_of::<T>() as int, n as int, self.remaining as int);
            lemma_elem_bound(size_of::<T>() as int, n as int + 1, self.remaining as int);
            assert(size_of::<T>() * (self.remaining - n) == size_of::<T>() * self.remaining - size_of::<T>() * n) by(nonlinear_arith);
            lemma_shift::<T>(self.buf@, self.loc as int, n as int, self.remaining as int);
            assert(size_of::<T>() * 0 == 0 && size_of::<T>() * 1 == size_of::<T>()) by(nonlinear_arith);
        }
    }
//@ endfn
//@ fn vector.rs Iterator~for~VectorIter size_hint
    ensures r.0 == self.remaining, r.1 == Some(self.remaining),
//@ endfn
//@ fn vector.rs DoubleEndedIterator~for~VectorIter next_back
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).buf == old(self).buf, final(self).loc == old(self).loc,
        old(self).remaining == 0 ==> r is None && final(self).remaining == 0,
        old(self).remaining > 0 ==> r is Some && T::follow_post(old(self).buf@, old(self).at(old(self).remaining - 1), r->Some_0)
            && final(self).remaining == old(self).remaining - 1,
//@ hint start
    proof {
        if self.remaining > 0 {
            lemma_elem_bound(size_of::<T>() as int, self.remaining as int - 1, self.remaining as int);
            assert(T::follow_req(self.buf@, self.loc + size_of::<T>() * (self.remaining - 1)));
        }
    }
//@ endfn
//@ fn vector.rs DoubleEndedIterator~for~VectorIter nth_back
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).buf == old(self).buf, final(self).loc == old(self).loc,
        n >= old(self).remaining ==> r is None && final(self).remaining == 0,
        n < old(self).remaining ==> r is Some && T::follow_post(old(self).buf@, old(self).at(old(self).remaining - n - 1), r->Some_0)
            && final(self).remaining == old(self).remaining - n - 1,
//@ hint start
    proof {
        if n < self.remaining {
            lemma_elem_bound(size_of::<T>() as int, self.remaining - n, self.remaining as int);
        }
    }
//@ endfn
//@ fn vector.rs ExactSizeIterator~for~VectorIter len
    ensures r == self.remaining,
//@ endfn
}

// ------------------------------------------------------------------ slices of plain data
// raw memory: the value of type T held by size_of::<T>() bytes; a scalar is its decoding (x86-64)
pub uninterp spec fn mem_val<T>(s: Seq<u8>) -> T;
pub uninterp spec fn mem_ok<T>(s: Seq<u8>) -> bool;
pub axiom fn axiom_mem_scalar<T: EndianScalar>()
    ensures forall|s: Seq<u8>| #[trigger] mem_val::<T>(s) == T::dec(s), forall|s: Seq<u8>| #[trigger] mem_ok::<T>(s) == T::valid(s);
// a pointer to the start of a slice, with its (arbitrary) address
pub struct VxPtr<'a> { pub s: &'a [u8], pub addr: usize }
#[verifier::external_body]
pub fn vx_ptr<'a>(s: &'a [u8]) -> (r: VxPtr<'a>)
    ensures r.s == s,
{ VxPtr { s, addr: s.as_ptr() as usize } }
pub open spec fn chunk<T>(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(size_of::<T>() * k, size_of::<T>() * (k + 1)) }
#[verifier::external_body]
pub fn vx_from_raw<'a, T>(p: VxPtr<'a>, n: usize) -> (r: &'a [T])
    requires size_of::<T>() * n <= p.s@.len(), p.addr as int % align_of::<T>() as int == 0,
        forall|k: int| 0 <= k < n ==> mem_ok::<T>(#[trigger] chunk::<T>(p.s@, k)),
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == mem_val::<T>(chunk::<T>(p.s@, k)),
{ unsafe { std::slice::from_raw_parts(p.addr as *const T, n) } }
#[verifier::external_body]
pub fn vx_deref<'a, T>(p: VxPtr<'a>) -> (r: &'a T)
    requires size_of::<T>() <= p.s@.len(), mem_ok::<T>(p.s@.subrange(0, size_of::<T>() as int)),
    ensures *r == mem_val::<T>(p.s@.subrange(0, size_of::<T>() as int)),
{ unsafe { &*(p.addr as *const T) } }
// the element k of a vector at loc
pub open spec fn vec_elem<T>(buf: Seq<u8>, loc: int, k: int) -> Seq<u8> {
    buf.subrange(loc + 4 + size_of::<T>() * k, loc + 4 + size_of::<T>() * (k + 1))
}
pub open spec fn slice_req<T>(buf: Seq<u8>, loc: int) -> bool {
    &&& elem_size_ok::<T>()
    &&& loc + 0x1_0000_0000_0010 <= usize::MAX
    &&& loc + 4 <= buf.len() && loc + 4 + size_of::<T>() * u32_at(buf, loc) <= buf.len() ==>
        forall|k: int| 0 <= k < u32_at(buf, loc) ==> mem_ok::<T>(#[trigger] vec_elem::<T>(buf, loc, k))
}
pub open spec fn slice_post<T>(buf: Seq<u8>, loc: int, r: Result<&[T], Error>) -> bool {
    if loc + 4 > buf.len() || loc + 4 + size_of::<T>() * u32_at(buf, loc) > buf.len() { r == Err::<&[T], Error>(Error::OutOfBounds) }
    else {
        ||| align_of::<T>() > 1 && r == Err::<&[T], Error>(Error::UnalignedSlice)
        ||| r is Ok && r->Ok_0@.len() == u32_at(buf, loc)
            && forall|k: int| 0 <= k < u32_at(buf, loc) ==> #[trigger] r->Ok_0@[k] == mem_val::<T>(vec_elem::<T>(buf, loc, k))
    }
}
pub proof fn lemma_chunk<T>(buf: Seq<u8>, loc: int, n: int)
    requires elem_size_ok::<T>(), 0 <= loc, 0 <= n, loc + 4 + size_of::<T>() * n <= buf.len(),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] chunk::<T>(buf.subrange(loc + 4, loc + 4 + size_of::<T>() * n), k) == vec_elem::<T>(buf, loc, k),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] chunk::<T>(buf.subrange(loc + 4, loc + 4 + size_of::<T>() * n), k) == vec_elem::<T>(buf, loc, k) by {
        lemma_elem_bound(size_of::<T>() as int, k, n); lemma_elem_bound(size_of::<T>() as int, k + 1, n);
        assert(chunk::<T>(buf.subrange(loc + 4, loc + 4 + size_of::<T>() * n), k) =~= vec_elem::<T>(buf, loc, k));
    }
}
impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
//@ fn vector.rs Vector safe_slice
    requires slice_req::<T>(self.0@, self.1 as int),
    ensures slice_post::<T>(self.0@, self.1 as int, r),
//@ hint start
    proof { if self.1 + 4 <= self.0@.len() { let n = u32_at(self.0@, self.1 as int); lemma_elem_bound(size_of::<T>() as int, 0, n);
        assert(n * size_of::<T>() == size_of::<T>() * n) by(nonlinear_arith);
        if self.1 + 4 + size_of::<T>() * n <= self.0@.len() { lemma_chunk::<T>(self.0@, self.1 as int, n);
            assert forall|k: int| 0 <= k < n implies mem_ok::<T>(#[trigger] chunk::<T>(self.0@.subrange(self.1 + 4, self.1 + 4 + size_of::<T>() * n), k)) by { assert(mem_ok::<T>(vec_elem::<T>(self.0@, self.1 as int, k))); } } } }
//@ endfn
}
//@ fn vector.rs - follow_slice_helper
    requires slice_req::<T>(buf@, loc as int),
    ensures slice_post::<T>(buf@, loc as int, r),
//@ hint start
    proof { if loc + 4 <= buf@.len() { let n = u32_at(buf@, loc as int); lemma_elem_bound(size_of::<T>() as int, 0, n);
        assert(n * size_of::<T>() == size_of::<T>() * n) by(nonlinear_arith);
        if loc + 4 + size_of::<T>() * n <= buf@.len() { lemma_chunk::<T>(buf@, loc as int, n);
            assert forall|k: int| 0 <= k < n implies mem_ok::<T>(#[trigger] chunk::<T>(buf@.subrange(loc + 4, loc + 4 + size_of::<T>() * n), k)) by { assert(mem_ok::<T>(vec_elem::<T>(buf@, loc as int, k))); } } } }
//@ endfn
//@ impl vector.rs Follow~for~&slice
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { slice_req::<T>(buf, loc) }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { slice_post::<T>(buf, loc, r) }
//@ fn vector.rs Follow~for~&slice follow
//@ endfn
//@ end
//@ fn vector.rs - follow_cast_ref
    requires elem_size_ok::<T>(), loc + 0x1_0000 <= usize::MAX,
        loc + size_of::<T>() <= buf@.len() ==> mem_ok::<T>(buf@.subrange(loc as int, loc + size_of::<T>())),
    ensures
        loc + size_of::<T>() > buf@.len() ==> r == Err::<&T, Error>(Error::OutOfBounds),
        loc + size_of::<T>() <= buf@.len() ==> r is Ok && *r->Ok_0 == mem_val::<T>(buf@.subrange(loc as int, loc + size_of::<T>())),
//@ hint start
    proof { if loc + size_of::<T>() <= buf@.len() { let u = buf@.subrange(loc as int, loc + size_of::<T>()); assert(u.subrange(0, size_of::<T>() as int) =~= u); } }
//@ endfn

// std's IntoIterator, with a contract
pub trait VxIntoIterator: Sized {
    type Item;
    type IntoIter;
    spec fn ii_req(self) -> bool;
    spec fn ii_post(self, r: Self::IntoIter) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter) requires self.ii_req() ensures self.ii_post(r);
}
//@ impl vector.rs IntoIterator~for~Vector sub:IntoIterator=>VxIntoIterator
    open spec fn ii_req(self) -> bool { self.elems_req() }
    open spec fn ii_post(self, r: VectorIter<'a, T>) -> bool {
        r.wf() && r.buf@ == self.0@ && r.remaining == (if self.has_len() { self.count() } else { 0 }) && r.loc == self.elem(0)
    }
//@ fn vector.rs IntoIterator~for~Vector into_iter
//@ endfn
//@ end
//@ impl vector.rs IntoIterator~for~&~Vector sub:IntoIterator=>VxIntoIterator
    open spec fn ii_req(self) -> bool { self.elems_req() }
    open spec fn ii_post(self, r: VectorIter<'a, T>) -> bool {
        r.wf() && r.buf@ == self.0@ && r.remaining == (if self.has_len() { self.count() } else { 0 }) && r.loc == self.elem(0)
    }
//@ fn vector.rs IntoIterator~for~&~Vector into_iter
//@ endfn
//@ end
