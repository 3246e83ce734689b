// ------------------------------------------------------------------ push.rs
pub open spec fn align_ok(a: int) -> bool { a == 1 || a == 2 || a == 4 || a == 8 || a == 16 }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

//@ item push.rs struct PushAlignment pubfields
impl PushAlignment {
//@ fn push.rs PushAlignment new
    ensures r.0 == x,
//@ endfn
//@ fn push.rs PushAlignment value
    ensures r == self.0,
//@ endfn
//@ fn push.rs PushAlignment max_of
    ensures r.0 == imax(self.0 as int, o as int),
//@ endfn
}

//@ trait push.rs Push
    // the bytes this value occupies when rest_len bytes follow it to the end of the buffer
    spec fn push_bytes(&self, rest_len: int) -> Seq<u8>;
    spec fn push_req(&self, rest_len: int) -> bool;
    spec fn sz() -> int;
    spec fn al() -> int;
    proof fn lemma_push_layout()
        ensures 1 <= Self::sz() <= 0x1_0000, align_ok(Self::al()), Self::sz() % Self::al() == 0,
            size_of::<Self::Output>() == Self::sz(), align_of::<Self::Output>() == Self::al();
    proof fn lemma_push_len(&self, rest_len: int)
        ensures self.push_bytes(rest_len).len() == Self::sz();
//@ fn push.rs Push push trait
    requires
        old(dst)@.len() == Self::sz(),
        self.push_req(_rest@.len() as int), _rest@.len() <= 0x8000_0000,
    ensures final(dst)@ == self.push_bytes(_rest@.len() as int),
//@ endfn
//@ fn push.rs Push size trait
    ensures r == Self::sz(),
//@ hint start
    proof { Self::lemma_push_layout(); }
//@ endfn
//@ fn push.rs Push alignment trait
    ensures r.0 == Self::al(),
//@ hint start
    proof { Self::lemma_push_layout(); }
//@ endfn
//@ end

//@ foreach T bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
//@ impl push.rs Push~for~$T
    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { (*self).enc() }
    open spec fn push_req(&self, rest_len: int) -> bool { true }
    open spec fn sz() -> int { <$T as EndianScalar>::width() as int }
    open spec fn al() -> int { <$T as EndianScalar>::width() as int }
    proof fn lemma_push_layout() { broadcast use group_layout_axioms; axiom_float_layout(); axiom_int_align(); }
    proof fn lemma_push_len(&self, rest_len: int) { (*self).lemma_scalar(); }
//@ fn push.rs Push~for~$T push
//@ hint end
    proof { assert(dst@ =~= (*self).enc()) by { (*self).lemma_scalar(); } }
//@ endfn
//@ end
//@ endforeach

// x86-64 alignment of the scalars; each is a const assertion in the native crate
pub axiom fn axiom_int_align()
    ensures align_of::<bool>() == 1, align_of::<u8>() == 1, align_of::<i8>() == 1,
        align_of::<u16>() == 2, align_of::<i16>() == 2, align_of::<u32>() == 4, align_of::<i32>() == 4,
        align_of::<u64>() == 8, align_of::<i64>() == 8;
pub axiom fn axiom_offset_layout<T>()
    ensures
        size_of::<ForwardsUOffset<T>>() == 4, align_of::<ForwardsUOffset<T>>() == 4,
        size_of::<ForwardsVOffset<T>>() == 2, align_of::<ForwardsVOffset<T>>() == 2,
        size_of::<BackwardsSOffset<T>>() == 4, align_of::<BackwardsSOffset<T>>() == 4;

// ------------------------------------------------------------------ primitives.rs: WIPOffset and Push impls
//@ item primitives.rs struct WIPOffset pubfields attr:verifier::reject_recursive_types(T)
impl<T> Copy for WIPOffset<T> {}
impl<T> Clone for WIPOffset<T> {
//@ fn primitives.rs Clone~for~WIPOffset clone
    ensures r == *self,
//@ endfn
}
impl<'a, T: 'a> WIPOffset<T> {
//@ fn primitives.rs WIPOffset new
    ensures r.0 == o,
//@ endfn
//@ fn primitives.rs WIPOffset value
    ensures r == self.0,
//@ endfn
//@ fn primitives.rs WIPOffset as_union_value
    ensures r.0 == self.0,
//@ endfn
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for WIPOffset<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &WIPOffset<T>) -> bool { self.0 == o.0 }
}
//@ impl primitives.rs PartialEq~for~WIPOffset
//@ fn primitives.rs PartialEq~for~WIPOffset eq
//@ endfn
//@ end
impl<T> WIPOffset<T> {
//@ fn primitives.rs Deref~for~WIPOffset deref
    ensures *r == self.0,
//@ endfn
}
//@ impl primitives.rs Push~for~WIPOffset
    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { enc32((4 + rest_len - self.0) as u32) }
    open spec fn push_req(&self, rest_len: int) -> bool { self.0 <= rest_len }
    open spec fn sz() -> int { 4 }
    open spec fn al() -> int { 4 }
    proof fn lemma_push_layout() { axiom_offset_layout::<T>(); }
    proof fn lemma_push_len(&self, rest_len: int) {}
//@ fn primitives.rs Push~for~WIPOffset push
//@ hint end
    proof { assert(dst@ =~= self.push_bytes(rest@.len() as int)); }
//@ endfn
//@ end
//@ impl primitives.rs Push~for~ForwardsUOffset
    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { enc32(self.0) }
    open spec fn push_req(&self, rest_len: int) -> bool { true }
    open spec fn sz() -> int { 4 }
    open spec fn al() -> int { 4 }
    proof fn lemma_push_layout() { axiom_offset_layout::<T>(); }
    proof fn lemma_push_len(&self, rest_len: int) {}
//@ fn primitives.rs Push~for~ForwardsUOffset push
//@ endfn
//@ end
impl<T> Copy for ForwardsUOffset<T> {}
impl<T> Clone for ForwardsUOffset<T> {
//@ fn primitives.rs Clone~for~ForwardsUOffset clone
    ensures r == *self,
//@ endfn
}
impl<T> ForwardsVOffset<T> {
//@ fn primitives.rs ForwardsVOffset value
    ensures r == self.0,
//@ endfn
}
//@ impl primitives.rs Push~for~ForwardsVOffset
    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { enc16(self.0) }
    open spec fn push_req(&self, rest_len: int) -> bool { true }
    open spec fn sz() -> int { 2 }
    open spec fn al() -> int { 2 }
    proof fn lemma_push_layout() { axiom_offset_layout::<T>(); }
    proof fn lemma_push_len(&self, rest_len: int) {}
//@ fn primitives.rs Push~for~ForwardsVOffset push
//@ endfn
//@ end
impl<T> BackwardsSOffset<T> {
//@ fn primitives.rs BackwardsSOffset value
    ensures r == self.0,
//@ endfn
}
//@ impl primitives.rs Push~for~BackwardsSOffset
    open spec fn push_bytes(&self, rest_len: int) -> Seq<u8> { enc32(self.0 as u32) }
    open spec fn push_req(&self, rest_len: int) -> bool { true }
    open spec fn sz() -> int { 4 }
    open spec fn al() -> int { 4 }
    proof fn lemma_push_layout() { axiom_offset_layout::<T>(); }
    proof fn lemma_push_len(&self, rest_len: int) {}
//@ fn primitives.rs Push~for~BackwardsSOffset push
//@ endfn
//@ end

// ------------------------------------------------------------------ vtable_writer.rs
// s with b written at position p
pub open spec fn put(s: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    s.subrange(0, p) + b + s.subrange(p + b.len(), s.len() as int)
}
//@ item vtable_writer.rs struct VTableWriter pubfields
impl<'a> VTableWriter<'a> {
//@ fn vtable_writer.rs VTableWriter init
    ensures r.buf@ == old(buf)@, final(buf)@ == final(r.buf)@,
//@ endfn
//@ fn vtable_writer.rs VTableWriter write_vtable_byte_length
    requires old(self).buf@.len() >= 2, strict() ==> n == old(self).buf@.len(),
    ensures
        final(self).buf@ == put(old(self).buf@, 0, enc16(n)),
        n == final(self).buf@.len(),
        final(final(self).buf)@ == final(old(self).buf)@,
//@ hint after emplace_scalar
    proof { assert(self.buf@ =~= put(old(self).buf@, 0, enc16(n))); }
//@ endfn
//@ fn vtable_writer.rs VTableWriter write_object_inline_size
    requires old(self).buf@.len() >= 4,
    ensures
        final(self).buf@ == put(old(self).buf@, 2, enc16(n)),
        final(final(self).buf)@ == final(old(self).buf)@,
//@ hint end
    proof { assert(self.buf@ =~= put(old(self).buf@, 2, enc16(n))); }
//@ endfn
//@ fn vtable_writer.rs VTableWriter get_field_offset
    requires vtable_offset + 2 <= old(self.buf)@.len(),
    ensures r == u16_at(old(self.buf)@, vtable_offset as int),
//@ endfn
//@ fn vtable_writer.rs VTableWriter write_field_offset
    requires vtable_offset + 2 <= old(self).buf@.len(), old(self).buf@.len() <= 0x1_0000,
    ensures
        final(self).buf@ == put(old(self).buf@, vtable_offset as int, enc16(object_data_offset)),
        final(final(self).buf)@ == final(old(self).buf)@,
//@ hint end
    proof { assert(self.buf@ =~= put(old(self).buf@, vtable_offset as int, enc16(object_data_offset))); }
//@ endfn
//@ fn vtable_writer.rs VTableWriter clear
    ensures
        final(self).buf@ == zeros(old(self).buf@.len()),
        final(final(self).buf)@ == final(old(self).buf)@,
//@ hint end
    proof { assert(self.buf@ =~= zeros(old(self).buf@.len())); }
//@ endfn
}
