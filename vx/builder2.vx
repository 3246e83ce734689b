// ------------------------------------------------------------------ slots, vectors, strings
impl St {
    pub open spec fn slot<X: Push>(self, id: u16, x: X) -> St { self.push(x).track(id) }
    pub open spec fn start_vector<T: Push>(self, n: int) -> St {
        St { nested: true, ..self.align(n * T::sz(), imax(T::al(), 4)) }
    }
    pub open spec fn end_vector(self, n: int) -> St { St { nested: false, ..self }.push(n as u32) }
    pub open spec fn byte_string(self, b: Seq<u8>) -> St {
        self.align(b.len() as int + 1, 4).push(0u8).prepend(b).push(b.len() as u32)
    }
    // push items[n - 1], ..., items[i]
    pub open spec fn push_from<T: Push>(self, items: Seq<T>, i: int) -> St
        decreases items.len() - i,
    {
        if i >= items.len() || i < 0 { self } else { self.push_from(items, i + 1).push(items[i]) }
    }
    pub open spec fn vector<T: Push>(self, items: Seq<T>) -> St {
        self.align(items.len() * T::sz(), imax(T::al(), 4)).push_from(items, 0).push(items.len() as u32)
    }
    pub open spec fn vector_direct<T: Push>(self, items: Seq<T>) -> St {
        self.align(items.len() * T::sz(), imax(T::al(), 4)).prepend(flat(items, 0)).push(items.len() as u32)
    }
    // create xs[n - 1], ..., xs[i]
    pub open spec fn strings_from(self, xs: Seq<&str>, i: int) -> St
        decreases xs.len() - i,
    {
        if i >= xs.len() || i < 0 { self } else { self.strings_from(xs, i + 1).byte_string(xs[i].spec_bytes()) }
    }
    // offs[i] refers to the i-th string created by strings_from
    pub open spec fn str_offs<'x>(self, xs: Seq<&str>, offs: Seq<WIPOffset<&'x str>>) -> bool {
        offs.len() == xs.len() && (forall|i: int| 0 <= i < xs.len() ==> (#[trigger] offs[i]).0 == self.strings_from(xs, i).used())
    }
}
pub proof fn lemma_inv_same(s: St, t: St)
    requires s.inv(), t.d == s.d, t.fl == s.fl, t.vts == s.vts, t.min_align == s.min_align,
    ensures t.inv(),
{
    assert forall|i: int| 0 <= i < t.vts.len() implies vt_ok(t.d, #[trigger] t.vts[i] as int) by { assert(vt_ok(s.d, s.vts[i] as int)); }
}
// the flags do not matter to the invariant
pub proof fn lemma_inv_flags()
    ensures forall|s: St, t: St| #![trigger s.inv(), t.inv()] s.inv() && t.d == s.d && t.fl == s.fl && t.vts == s.vts && t.min_align == s.min_align ==> t.inv(),
{
    assert forall|s: St, t: St| #![trigger s.inv(), t.inv()] s.inv() && t.d == s.d && t.fl == s.fl && t.vts == s.vts && t.min_align == s.min_align implies t.inv() by { lemma_inv_same(s, t); }
}
// the elements' bytes, first element first
pub open spec fn flat<T: Push>(items: Seq<T>, i: int) -> Seq<u8>
    decreases items.len() - i,
{
    if i >= items.len() || i < 0 { Seq::empty() } else { items[i].push_bytes(0) + flat(items, i + 1) }
}
pub proof fn lemma_flat_len<T: Push>(items: Seq<T>, i: int)
    requires 0 <= i <= items.len(),
    ensures flat(items, i).len() == (items.len() - i) * T::sz(),
    decreases items.len() - i,
{
    if i < items.len() {
        lemma_flat_len(items, i + 1);
        items[i].lemma_push_len(0);
        assert((items.len() - i) * T::sz() == T::sz() + (items.len() - i - 1) * T::sz()) by(nonlinear_arith);
    } else {
        assert((items.len() - i) * T::sz() == 0) by(nonlinear_arith) requires items.len() - i == 0;
    }
}
// pushing only ever adds bytes in front
pub proof fn lemma_push_grows<P: Push>(s: St, x: P)
    ensures s.push(x).used() >= s.used() + P::sz(), s.push(x).used() >= s.push_rest::<P>(), s.push_rest::<P>() >= s.used(),
        s.push(x).used() <= s.used() + P::sz() + 16,
        s.push(x).fl == s.fl, s.push(x).vts == s.vts, s.push(x).nested == s.nested, s.push(x).finished == s.finished,
{
    P::lemma_push_layout();
    lemma_pad(s.used() + P::sz(), P::al());
    x.lemma_push_len(s.push_rest::<P>());
}
pub proof fn lemma_push_from_grows<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(),
    ensures
        s.push_from(items, i).used() >= s.used(),
        forall|j: int| i <= j <= items.len() ==> s.push_from(items, i).used() >= (#[trigger] s.push_from(items, j)).used(),
        s.push_from(items, i).nested == s.nested, s.push_from(items, i).finished == s.finished,
        s.push_from(items, i).fl == s.fl, s.push_from(items, i).vts == s.vts,
    decreases items.len() - i,
{
    if i < items.len() {
        lemma_push_from_grows(s, items, i + 1);
        lemma_push_grows(s.push_from(items, i + 1), items[i]);
        T::lemma_push_layout();
    }
}
pub proof fn lemma_string_grows(s: St, b: Seq<u8>)
    ensures s.byte_string(b).used() >= s.used() + b.len() + 5,
        s.byte_string(b).used() >= s.align(b.len() as int + 1, 4).push(0u8).prepend(b).used(),
        s.align(b.len() as int + 1, 4).push(0u8).prepend(b).used() >= s.align(b.len() as int + 1, 4).push(0u8).used() >= s.align(b.len() as int + 1, 4).used(),
        s.byte_string(b).nested == s.nested, s.byte_string(b).finished == s.finished,
        s.byte_string(b).fl == s.fl, s.byte_string(b).vts == s.vts,
{
    lemma_pad(s.used() + b.len() + 1, 4);
    lemma_push_grows(s.align(b.len() as int + 1, 4), 0u8);
    lemma_push_grows(s.align(b.len() as int + 1, 4).push(0u8).prepend(b), b.len() as u32);
}
pub proof fn lemma_strings_grow(s: St, xs: Seq<&str>, i: int)
    requires 0 <= i <= xs.len(),
    ensures
        s.strings_from(xs, i).used() >= s.used(),
        forall|j: int| i <= j <= xs.len() ==> s.strings_from(xs, i).used() >= (#[trigger] s.strings_from(xs, j)).used(),
        s.strings_from(xs, i).nested == s.nested, s.strings_from(xs, i).finished == s.finished,
        s.strings_from(xs, i).fl == s.fl, s.strings_from(xs, i).vts == s.vts,
    decreases xs.len() - i,
{
    if i < xs.len() {
        lemma_strings_grow(s, xs, i + 1);
        lemma_string_grows(s.strings_from(xs, i + 1), xs[i].spec_bytes());
    }
}

pub proof fn lemma_mul_mod(u: int, n: int, sz: int, a: int)
    requires align_ok(a), sz % a == 0, n >= 0, sz >= 1, u >= 0,
    ensures (u + n * sz) % a == u % a,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(sz, a);
    let q = sz / a;
    assert(n * sz == a * (n * q)) by(nonlinear_arith) requires sz == a * q;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(n * q, u, a);
}
pub proof fn lemma_mod_div(u: int, big: int, a: int)
    requires align_ok(a), align_ok(big), a <= big, u % big == 0, u >= 0,
    ensures u % a == 0,
{
    let m: int = if big == a { 1 } else if big == 2 * a { 2 } else if big == 4 * a { 4 } else if big == 8 * a { 8 } else { 16 };
    let k = u / big;
    assert(big == m * a) by {
        if m == 1 {} else if m == 2 {} else if m == 4 {} else if m == 8 {} else { assert(a == 1 && big == 16); }
    }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, big);
    assert(u == (m * k) * a) by(nonlinear_arith) requires u == big * k, big == m * a;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(m * k, a);
}
// from an aligned position the elements follow one another without padding
pub proof fn lemma_push_aligned<P: Push>(s: St, x: P)
    requires s.used() % P::al() == 0,
    ensures s.push(x).d == x.push_bytes(s.used()) + s.d, s.push_rest::<P>() == s.used(), s.push(x).used() % P::al() == 0,
        s.push(x).used() == s.used() + P::sz(),
{
    P::lemma_push_layout();
    lemma_mul_mod(s.used(), 1, P::sz(), P::al());
    lemma_pad(s.used() + P::sz(), P::al());
    assert(zeros(0) + s.d =~= s.d);
    x.lemma_push_len(s.used());
}
pub proof fn lemma_push_from_contig<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(), s.used() % T::al() == 0,
    ensures
        s.push_from(items, i).used() == s.used() + (items.len() - i) * T::sz(),
        s.push_from(items, i).used() % T::al() == 0,
        s.push_from(items, i).d.subrange((items.len() - i) * T::sz(), s.push_from(items, i).used()) == s.d,
        forall|k: int| i <= k < items.len() ==>
            s.push_from(items, i).d.subrange((k - i) * T::sz(), (k - i) * T::sz() + T::sz())
                == #[trigger] items[k].push_bytes(s.used() + (items.len() - 1 - k) * T::sz()),
    decreases items.len() - i,
{
    T::lemma_push_layout();
    let n = items.len() as int; let z = T::sz();
    if i < n {
        lemma_push_from_contig(s, items, i + 1);
        let p = s.push_from(items, i + 1);
        let q = s.push_from(items, i);
        lemma_push_aligned(p, items[i]);
        items[i].lemma_push_len(p.used());
        assert((n - i) * z == z + (n - (i + 1)) * z) by(nonlinear_arith);
        assert((n - i) * z >= z) by(nonlinear_arith) requires n - i >= 1, z >= 1;
        assert(q.d.subrange((n - i) * z, q.used()) =~= p.d.subrange((n - (i + 1)) * z, p.used()));
        assert forall|k: int| i <= k < n implies q.d.subrange((k - i) * z, (k - i) * z + z) == #[trigger] items[k].push_bytes(s.used() + (n - 1 - k) * z) by {
            if k == i {
                assert((k - i) * z == 0) by(nonlinear_arith) requires k == i;
                assert(p.used() == s.used() + (n - 1 - k) * z);
                assert(q.d.subrange(0, z) =~= items[i].push_bytes(p.used()));
            } else {
                assert((k - i) * z == z + (k - (i + 1)) * z) by(nonlinear_arith);
                assert(0 <= (k - (i + 1)) * z && (k - (i + 1)) * z + z <= (n - (i + 1)) * z) by(nonlinear_arith) requires i + 1 <= k < n, z >= 1;
                assert(q.d.subrange((k - i) * z, (k - i) * z + z) =~= p.d.subrange((k - (i + 1)) * z, (k - (i + 1)) * z + z));
            }
        }
    } else {
        assert((n - i) * z == 0) by(nonlinear_arith) requires n == i;
        assert(s.d.subrange(0, s.used()) =~= s.d);
    }
}
// where create_vector starts pushing: aligned for the elements and for the length
pub proof fn lemma_vector_start<T: Push>(s: St, n: int)
    requires n >= 0,
    ensures ({
        let s1 = s.align(n * T::sz(), imax(T::al(), 4));
        &&& s1.used() % T::al() == 0
        &&& (s1.used() + n * T::sz()) % 4 == 0
        &&& s.used() <= s1.used() < s.used() + 16
        &&& n * T::sz() >= 0
    }),
{
    T::lemma_push_layout();
    let a = imax(T::al(), 4);
    assert(n * T::sz() >= 0) by(nonlinear_arith) requires n >= 0, T::sz() >= 1;
    lemma_pad(s.used() + n * T::sz(), a);
    let s1 = s.align(n * T::sz(), a);
    assert((s1.used() + n * T::sz()) % a == 0);
    lemma_mod_div(s1.used() + n * T::sz(), a, T::al());
    lemma_mod_div(s1.used() + n * T::sz(), a, 4);
    lemma_mul_mod(s1.used(), n, T::sz(), T::al());
}
pub proof fn lemma_vector_size<T: Push>(s: St, items: Seq<T>)
    ensures
        s.vector(items).used() == s.align(items.len() * T::sz(), imax(T::al(), 4)).used() + items.len() * T::sz() + 4,
{
    let n = items.len() as int;
    lemma_vector_start::<T>(s, n);
    let s1 = s.align(n * T::sz(), imax(T::al(), 4));
    lemma_push_from_contig(s1, items, 0);
    assert((items.len() - 0) * T::sz() == n * T::sz()) by(nonlinear_arith) requires n == items.len();
    lemma_push_aligned(s1.push_from(items, 0), items.len() as u32);
}

// little-endian host: the memory of a slice of plain scalars is the elements' encodings
// in order; checked on the real types by Kani (harness direct_bytes_*)
#[verifier::external_body]
pub fn vx_as_bytes<T: SafeSliceAccess + Push>(items: &[T], len: usize) -> (r: &[u8])
    requires len == items@.len() * T::sz(),
    ensures r@ == flat(items@, 0),
{ unimplemented!() }

// the type's own comparison says that the values are equal (or differ)
pub open spec fn same_value<X: PartialEq>(x: X, d: X) -> bool { call_ensures(<X as PartialEq>::ne, (&x, &d), false) || call_ensures(<X as PartialEq>::eq, (&x, &d), true) }
pub open spec fn other_value<X: PartialEq>(x: X, d: X) -> bool { call_ensures(<X as PartialEq>::ne, (&x, &d), true) || call_ensures(<X as PartialEq>::eq, (&x, &d), false) }
impl<'fbb> FlatBufferBuilder<'fbb> {
//@ fn builder.rs FlatBufferBuilder push_slot_always
    requires old(self).wf(), x.push_req(old(self).st().push_rest::<X>()),
        strict() ==> old(self).nested && old(self).st().push(x).fits(),
    ensures old(self).nested, final(self).wf(), final(self).st() == old(self).st().slot(slotoff, x),
//@ endfn
//@ fn builder.rs FlatBufferBuilder push_slot
    requires old(self).wf(), x.push_req(old(self).st().push_rest::<X>()),
        strict() ==> old(self).nested && old(self).st().push(x).fits(),
    ensures old(self).nested, final(self).wf(),
        (final(self).st() == old(self).st() && same_value(x, default)) || (final(self).st() == old(self).st().slot(slotoff, x) && other_value(x, default)),
        X::obeys_eq_spec() ==> final(self).st() == (if x.eq_spec(&default) { old(self).st() } else { old(self).st().slot(slotoff, x) }),
//@ endfn
//@ fn builder.rs FlatBufferBuilder start_table
    requires old(self).wf(), strict() ==> !old(self).nested,
    ensures !old(self).nested, final(self).wf(), final(self).st() == (St { nested: true, ..old(self).st() }), r.0 == old(self).st().used(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder start_vector
    requires old(self).wf(), 0 <= num_items * T::sz() <= 0x100_0000_0000,
        strict() ==> !old(self).nested && old(self).st().start_vector::<T>(num_items as int).fits(),
    ensures !old(self).nested, final(self).wf(), final(self).st() == old(self).st().start_vector::<T>(num_items as int),
//@ hint start
    proof { T::lemma_push_layout(); lemma_inv_flags(); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder end_vector
    requires old(self).wf(), strict() ==> old(self).nested && old(self).st().end_vector(num_elems as int).fits(),
    ensures old(self).nested, final(self).wf(), final(self).st() == old(self).st().end_vector(num_elems as int), r.0 == final(self).st().used(),
//@ hint start
    proof { lemma_inv_flags(); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder create_byte_string
    requires old(self).wf(), data@.len() <= 0xff_ffff_ffff,
        strict() ==> !old(self).nested && old(self).st().byte_string(data@).fits(),
    ensures !old(self).nested, final(self).wf(), final(self).st() == old(self).st().byte_string(data@), r.0 == final(self).st().used(),
//@ hint start
    proof { lemma_string_grows(old(self).st(), data@); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder create_string
    requires old(self).wf(), s.spec_bytes().len() <= 0xff_ffff_ffff,
        strict() ==> !old(self).nested && old(self).st().byte_string(s.spec_bytes()).fits(),
    ensures !old(self).nested, final(self).wf(), final(self).st() == old(self).st().byte_string(s.spec_bytes()), r.0 == final(self).st().used(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder create_vector_direct
    requires old(self).wf(), 0 <= items@.len() * T::sz() <= 0x100_0000_0000,
        strict() ==> !old(self).nested && old(self).st().vector_direct(items@).fits(),
    ensures !old(self).nested, final(self).wf(), final(self).st() == old(self).st().vector_direct(items@), r.0 == final(self).st().used(),
//@ hint start
    proof {
        T::lemma_push_layout(); lemma_flat_len(items@, 0);
        let s1 = old(self).st().align(items@.len() * T::sz(), imax(T::al(), 4));
        lemma_pad(old(self).st().used() + items@.len() * T::sz(), imax(T::al(), 4));
        lemma_push_grows(s1.prepend(flat(items@, 0)), items@.len() as u32);
    }
//@ endfn
//@ fn builder.rs FlatBufferBuilder create_vector
    requires old(self).wf(), 0 <= items@.len() * T::sz() <= 0x100_0000_0000,
        forall|i: int, rest: int| 0 <= i < items@.len() && rest >= old(self).st().used() ==> #[trigger] items@[i].push_req(rest),
        strict() ==> old(self).st().vector(items@).fits(),
    ensures final(self).wf(), final(self).st() == old(self).st().vector(items@), r.0 == final(self).st().used(),
//@ hint start
    let ghost s1 = old(self).st().align(items@.len() * T::sz(), imax(T::al(), 4));
    proof {
        T::lemma_push_layout();
        lemma_pad(old(self).st().used() + items@.len() * T::sz(), imax(T::al(), 4));
        lemma_push_from_grows(s1, items@, 0);
        lemma_push_grows(s1.push_from(items@, 0), items@.len() as u32);
        assert(s1.push_from(items@, items@.len() as int) == s1);
    }
//@ loop 1
    invariant self.wf(), vx_k1 <= items@.len(), self.st() == s1.push_from(items@, vx_k1 as int),
        s1.used() >= old(self).st().used(),
        forall|i: int, rest: int| 0 <= i < items@.len() && rest >= old(self).st().used() ==> #[trigger] items@[i].push_req(rest),
        strict() ==> s1.push_from(items@, 0).fits(),
    decreases vx_k1,
//@ loopstart 1
    proof {
        lemma_push_from_grows(s1, items@, vx_k1 - 1);
        lemma_push_from_grows(s1, items@, vx_k1 as int);
        lemma_push_from_grows(s1, items@, 0);
        lemma_push_grows(s1.push_from(items@, vx_k1 as int), items@[vx_k1 - 1]);
    }
//@ endfn
//@ fn builder.rs FlatBufferBuilder create_vector_of_strings
    requires old(self).wf(), xs@.len() <= 0x1000_0000,
        forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).spec_bytes().len() <= 0xff_ffff_ffff,
        strict() ==> !old(self).nested && old(self).st().strings_from(xs@, 0).used() + 4 * xs@.len() + 16 <= 0x8000_0000,
    ensures !old(self).nested, final(self).wf(), r.0 == final(self).st().used(),
        exists|offs: Seq<WIPOffset<&'fbb str>>| #[trigger] old(self).st().str_offs(xs@, offs)
            && final(self).st() == old(self).st().strings_from(xs@, 0).vector(offs),
//@ hint start
    let ghost s0 = old(self).st();
    proof {
        lemma_strings_grow(s0, xs@, 0);
        assert(s0.strings_from(xs@, xs@.len() as int) == s0);
    }
//@ loop 1
    invariant self.wf(), vx_k1 <= xs@.len(), offsets@.len() == xs@.len(), !s0.nested,
        self.st() == s0.strings_from(xs@, vx_k1 as int), s0 == old(self).st(),
        forall|j: int| vx_k1 <= j < xs@.len() ==> (#[trigger] offsets@[j]).0 == s0.strings_from(xs@, j).used(),
        forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).spec_bytes().len() <= 0xff_ffff_ffff,
        strict() ==> s0.strings_from(xs@, 0).fits(),
    decreases vx_k1,
//@ loopstart 1
    proof {
        lemma_strings_grow(s0, xs@, vx_k1 - 1);
        lemma_strings_grow(s0, xs@, vx_k1 as int);
        lemma_strings_grow(s0, xs@, 0);
    }
//@ hint result
    proof {
        lemma_strings_grow(s0, xs@, 0);
        let s1 = s0.strings_from(xs@, 0);
        lemma_vector_start::<WIPOffset<&'fbb str>>(s1, xs@.len() as int);
        lemma_vector_size::<WIPOffset<&'fbb str>>(s1, offsets@);
        assert forall|i: int| 0 <= i < xs@.len() implies (#[trigger] offsets@[i]).0 <= s1.used() by { assert(s1.used() >= s0.strings_from(xs@, i).used()); }
        assert(s0.str_offs(xs@, offsets@));
        let z = <WIPOffset<&'fbb str> as Push>::sz();
        assert(offsets@.len() * z == 4 * xs@.len()) by(nonlinear_arith) requires z == 4, offsets@.len() == xs@.len();
        assert(offsets@.subrange(0, offsets@.len() as int) =~= offsets@);
    }
//@ endfn
}
