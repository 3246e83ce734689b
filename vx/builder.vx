// ------------------------------------------------------------------ builder.rs: abstract state
//@ item builder.rs struct FieldLoc pubfields derive:Clone,Copy
//@ item builder.rs struct FlatBufferBuilder pubfields

// bytes of padding that bring n up to a multiple of a
pub open spec fn pad(n: int, a: int) -> int { (a - n % a) % a }

// the vtable stored rev bytes before the end of d
pub open spec fn vt_at(d: Seq<u8>, rev: int) -> Seq<u8> {
    d.subrange(d.len() - rev, d.len() - rev + u16_at(d, d.len() - rev))
}
pub open spec fn vt_ok(d: Seq<u8>, rev: int) -> bool {
    4 <= rev <= d.len() && 4 <= u16_at(d, d.len() - rev) <= rev
}

// the bytes before the data are zero
#[verifier::opaque]
pub open spec fn zero_before(b: Seq<u8>, h: int) -> bool { forall|i: int| 0 <= i < h ==> b[i] == 0 }

// everything a builder's observable behaviour depends on
pub ghost struct St {
    pub d: Seq<u8>,
    pub fl: Seq<FieldLoc>,
    pub vts: Seq<u32>,
    pub nested: bool,
    pub finished: bool,
    pub min_align: int,
}
impl St {
    pub open spec fn init() -> St {
        St { d: Seq::empty(), fl: Seq::empty(), vts: Seq::empty(), nested: false, finished: false, min_align: 0 }
    }
    pub open spec fn used(self) -> int { self.d.len() as int }
    pub open spec fn fits(self) -> bool { self.d.len() <= 0x8000_0000 }
    pub open spec fn vts_ok(self) -> bool { forall|i: int| 0 <= i < self.vts.len() ==> vt_ok(self.d, #[trigger] self.vts[i] as int) }
    pub open spec fn vts_distinct(self) -> bool {
        forall|i: int, j: int| 0 <= i < j < self.vts.len() ==> vt_at(self.d, #[trigger] self.vts[i] as int) != vt_at(self.d, #[trigger] self.vts[j] as int)
    }
    pub open spec fn inv(self) -> bool {
        &&& self.fits()
        &&& self.min_align == 0 || align_ok(self.min_align)
        &&& forall|k: int| 0 <= k < self.fl.len() ==> (#[trigger] self.fl[k]).off <= self.d.len()
        &&& self.vts_ok()
        &&& self.vts_distinct()
    }
    pub open spec fn prepend(self, x: Seq<u8>) -> St { St { d: x + self.d, ..self } }
    pub open spec fn align(self, len: int, a: int) -> St {
        St { d: zeros(pad(self.used() + len, a) as nat) + self.d, min_align: imax(self.min_align, a), ..self }
    }
    pub open spec fn push<P: Push>(self, x: P) -> St {
        let s = self.align(P::sz(), P::al());
        s.prepend(x.push_bytes(s.used()))
    }
    pub open spec fn push_rest<P: Push>(self) -> int { self.align(P::sz(), P::al()).used() }
    pub open spec fn track(self, id: u16) -> St { St { fl: self.fl.push(FieldLoc { off: self.used() as u32, id }), ..self } }
}

pub proof fn lemma_pad(n: int, a: int)
    requires align_ok(a), n >= 0,
    ensures 0 <= pad(n, a) < a, (n + pad(n, a)) % a == 0, n % a == 0 ==> pad(n, a) == 0,
{
    if a == 1 {} else if a == 2 {} else if a == 4 {} else if a == 8 {} else { assert(a == 16); }
}
pub proof fn lemma_vt_prepend(d: Seq<u8>, x: Seq<u8>, rev: int)
    requires vt_ok(d, rev),
    ensures vt_ok(x + d, rev), vt_at(x + d, rev) == vt_at(d, rev),
{
    let e = x + d;
    assert(e.subrange(e.len() - rev, e.len() - rev + 2) =~= d.subrange(d.len() - rev, d.len() - rev + 2));
    assert(vt_at(e, rev) =~= vt_at(d, rev));
}
pub proof fn lemma_prepend_inv(s: St, x: Seq<u8>)
    requires s.inv(), x.len() + s.d.len() <= 0x8000_0000,
    ensures s.prepend(x).inv(),
{
    let t = s.prepend(x);
    assert forall|i: int| 0 <= i < t.vts.len() implies vt_ok(t.d, #[trigger] t.vts[i] as int) && vt_at(t.d, t.vts[i] as int) == vt_at(s.d, s.vts[i] as int) by {
        lemma_vt_prepend(s.d, x, s.vts[i] as int);
    }
}

impl<'fbb> FlatBufferBuilder<'fbb> {
    pub open spec fn rep(&self) -> bool {
        &&& self.head <= self.owned_buf@.len()
        &&& self.owned_buf@.len() <= 0x1_0000_0000
        &&& zero_before(self.owned_buf@, self.head as int)
    }
    pub open spec fn st(&self) -> St {
        St {
            d: self.owned_buf@.subrange(self.head as int, self.owned_buf@.len() as int),
            fl: self.field_locs@, vts: self.written_vtable_revpos@,
            nested: self.nested, finished: self.finished, min_align: self.min_align as int,
        }
    }
    pub open spec fn wf(&self) -> bool { self.rep() && self.st().inv() }

//@ fn builder.rs FlatBufferBuilder new
    ensures r.wf(), r.st() == St::init(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder new_with_capacity
    requires strict() ==> size <= 0x8000_0000,
    ensures size <= 0x8000_0000, r.wf(), r.st() == St::init(),
//@ hint start
    proof { reveal(zero_before); }
    broadcast use lemma_sub_empty;
    proof { }
//@ endfn
//@ fn builder.rs Default~for~FlatBufferBuilder default
    ensures r.wf(), r.st() == St::init(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder reset
    requires old(self).rep(),
    ensures final(self).wf(), final(self).st() == St::init(),
//@ hint end
    proof {
        assert(self.owned_buf@.subrange(self.head as int, self.owned_buf@.len() as int) =~= Seq::<u8>::empty());
        assert(self.field_locs@ =~= Seq::<FieldLoc>::empty());
        assert(self.written_vtable_revpos@ =~= Seq::<u32>::empty());
    }
//@ hint start
    proof { reveal(zero_before); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder collapse
    requires self.rep(),
    ensures r.1 <= r.0@.len(), r.0@.subrange(r.1 as int, r.0@.len() as int) == self.st().d,
//@ endfn
//@ fn builder.rs FlatBufferBuilder num_written_vtables
    ensures r == self.st().vts.len(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder unfinished_data
    requires self.rep(),
    ensures r@ == self.st().d,
//@ endfn
//@ fn builder.rs FlatBufferBuilder finished_data
    requires self.rep(), strict() ==> self.finished,
    ensures self.finished, r@ == self.st().d,
//@ endfn
//@ fn builder.rs FlatBufferBuilder used_space
    requires self.head <= self.owned_buf@.len(),
    ensures r == self.st().used(),
//@ endfn
//@ fn builder.rs FlatBufferBuilder unused_ready_space
    ensures r == self.head,
//@ endfn
//@ fn builder.rs FlatBufferBuilder assert_nested
    requires strict() ==> self.nested,
    ensures self.nested,
//@ endfn
//@ fn builder.rs FlatBufferBuilder assert_not_nested
    requires strict() ==> !self.nested,
    ensures !self.nested,
//@ endfn
//@ fn builder.rs FlatBufferBuilder assert_finished
    requires strict() ==> self.finished,
    ensures self.finished,
//@ endfn
//@ fn builder.rs FlatBufferBuilder assert_not_finished
    requires strict() ==> !self.finished,
    ensures !self.finished,
//@ endfn
//@ fn builder.rs FlatBufferBuilder track_min_align
    ensures final(self).min_align == imax(old(self).min_align as int, alignment as int),
        final(self).owned_buf == old(self).owned_buf, final(self).head == old(self).head,
        final(self).st() == (St { min_align: imax(old(self).min_align as int, alignment as int), ..old(self).st() }),
//@ endfn
//@ fn builder.rs FlatBufferBuilder track_field
    ensures
        final(self).owned_buf == old(self).owned_buf, final(self).head == old(self).head,
        final(self).st() == (St { fl: old(self).st().fl.push(FieldLoc { off, id: slot_off }), ..old(self).st() }),
//@ endfn
//@ fn builder.rs FlatBufferBuilder grow_owned_buf
    requires old(self).rep(), old(self).owned_buf@.len() <= 0x8000_0000,
    ensures final(self).rep(), final(self).st() == old(self).st(), final(self).head > old(self).head,
//@ hint start
    proof { reveal(zero_before); }
    broadcast use lemma_sub_empty;
//@ hint end
    proof { assert(self.st().d =~= old(self).st().d); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder ensure_capacity
    requires old(self).rep(), old(self).st().fits(), strict() ==> old(self).st().used() + want <= 0x8000_0000,
    ensures final(self).rep(), final(self).st() == old(self).st(), final(self).head >= want, r == want,
        old(self).st().used() + want <= 0x8000_0000,
//@ loop 1
    invariant self.rep(), self.st() == old(self).st(), old(self).st().used() + want <= 0x8000_0000,
    decreases (if want > self.head { want - self.head } else { 0 }),
//@ endfn
//@ fn builder.rs FlatBufferBuilder make_space
    requires old(self).wf(), strict() ==> old(self).st().used() + want <= 0x8000_0000,
    ensures final(self).wf(), final(self).st() == old(self).st().prepend(zeros(want as nat)), r == final(self).head,
        old(self).st().used() + want <= 0x8000_0000,
//@ hint start
    proof { reveal(zero_before); }
    proof { if old(self).st().used() + want <= 0x8000_0000 { lemma_prepend_inv(old(self).st(), zeros(want as nat)); } }
//@ hint result
    proof { assert(self.st().d =~= zeros(want as nat) + old(self).st().d); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder align
    requires old(self).wf(), align_ok(alignment.0 as int), len <= 0x100_0000_0000,
        strict() ==> old(self).st().align(len as int, alignment.0 as int).fits(),
    ensures final(self).wf(), final(self).st() == old(self).st().align(len as int, alignment.0 as int),
//@ hint start
    proof { lemma_pad(old(self).st().used() + len, alignment.0 as int); }
//@ endfn
//@ fn builder.rs FlatBufferBuilder push
    requires old(self).wf(), x.push_req(old(self).st().push_rest::<P>()),
        strict() ==> old(self).st().push(x).fits(),
    ensures final(self).wf(), final(self).st() == old(self).st().push(x), r.0 == final(self).st().used(),
        final(self).st().used() <= 0x8000_0000,
//@ hint start
    proof { reveal(zero_before); }
    let ghost s1 = old(self).st().align(P::sz(), P::al());
    proof { P::lemma_push_layout(); x.lemma_push_len(s1.used()); }
//@ hint result
    proof {
        assert(self.st().d =~= x.push_bytes(s1.used()) + s1.d);
        lemma_prepend_inv(s1, x.push_bytes(s1.used()));
    }
//@ endfn
//@ fn builder.rs FlatBufferBuilder push_bytes_unprefixed
    requires old(self).wf(), strict() ==> old(self).st().prepend(x@).fits(),
    ensures final(self).wf(), final(self).st() == old(self).st().prepend(x@), final(self).st().used() <= 0x8000_0000,
//@ hint result
    proof {
        assert forall|k: int| 0 <= k < self.st().d.len() implies #[trigger] self.st().d[k] == (x@ + old(self).st().d)[k] by {
            let t = (zeros(x@.len()) + old(self).st().d)[k];
        }
        assert(self.st().d =~= x@ + old(self).st().d);
        lemma_prepend_inv(old(self).st(), x@);
    }
//@ hint start
    proof { reveal(zero_before); }
//@ endfn
}

//@ fn builder.rs - padding_bytes
    requires align_ok(scalar_size as int), buf_size <= 0x200_0000_0000,
    ensures r == pad(buf_size as int, scalar_size as int),
//@ hint start
    proof {
        assert(forall|x: usize| #![auto] !x == 0xffff_ffff_ffff_ffff - x) by(bit_vector);
        assert(forall|x: usize| #![auto] x & 0 == 0 && x & 1 == x % 2 && x & 3 == x % 4 && x & 7 == x % 8 && x & 15 == x % 16) by(bit_vector);
    }
//@ endfn
