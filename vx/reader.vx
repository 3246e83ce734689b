
// ------------------------------------------------------------------ primitives.rs constants and types
//@ const primitives.rs FLATBUFFERS_MAX_BUFFER_SIZE 0x8000_0000
//@ const primitives.rs FILE_IDENTIFIER_LENGTH 4
//@ const primitives.rs VTABLE_METADATA_FIELDS 2
//@ item primitives.rs type SOffsetT
//@ item primitives.rs type UOffsetT
//@ item primitives.rs type VOffsetT
//@ const primitives.rs SIZE_SOFFSET 4
//@ const primitives.rs SIZE_UOFFSET 4
//@ const primitives.rs SIZE_VOFFSET 2
//@ const primitives.rs SIZE_SIZEPREFIX 4
//@ item primitives.rs struct TableFinishedWIPOffset derive:Clone,Copy
//@ item primitives.rs struct TableUnfinishedWIPOffset derive:Clone,Copy
//@ item primitives.rs struct UnionWIPOffset derive:Clone,Copy
//@ item primitives.rs struct VTableWIPOffset derive:Clone,Copy

// ------------------------------------------------------------------ follow.rs
//@ trait follow.rs Follow
    // where following is defined, and what it returns
    spec fn follow_req(buf: Seq<u8>, loc: int) -> bool;
    spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool;
//@ fn follow.rs Follow follow trait
    requires Self::follow_req(buf@, loc as int),
    ensures Self::follow_post(buf@, loc as int, r),
//@ endfn
//@ end

//@ trait follow.rs FollowBuf
    spec fn follow_buf_req(buf: Seq<u8>, loc: int) -> bool;
    spec fn follow_buf_post(buf: Self::Buf, loc: int, r: Result<Self::Inner, Error>) -> bool;
//@ fn follow.rs FollowBuf follow_buf trait
    requires Self::follow_buf_req(as_ref_spec(&buf), loc as int),
    ensures Self::follow_buf_post(buf, loc as int, r),
//@ endfn
//@ end

// AsRef<[u8]> is only assumed to be a function of the value (it returns the same
// bytes each time it is called on it)
pub uninterp spec fn as_ref_val<S: std::marker::PointeeSized, T: std::marker::PointeeSized>(s: &S) -> &T;
#[verifier::external_trait_specification]
pub trait ExAsRef<T: std::marker::PointeeSized>: std::marker::PointeeSized {
    type ExternalTraitSpecificationFor: std::convert::AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_val::<Self, T>(self);
}
// std: a slice as a slice is itself
pub broadcast axiom fn axiom_as_ref_slice<'a>(b: &&'a [u8])
    ensures (#[trigger] as_ref_val::<&'a [u8], [u8]>(b))@ == (*b)@;
pub open spec fn as_ref_spec<B: ?Sized>(b: &B) -> Seq<u8> { as_ref_val::<B, [u8]>(b)@ }

//@ fn follow.rs - lifted_follow
    requires T::follow_req(buf@, loc as int),
    ensures T::follow_post(buf@, loc as int, r),
//@ endfn

//@ item follow.rs struct FollowStart pubfields
//@ impl follow.rs Follow~for~FollowStart
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { T::follow_req(buf, loc) }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { T::follow_post(buf, loc, r) }
//@ fn follow.rs Follow~for~FollowStart follow
//@ endfn
//@ end
impl<'a, T: Follow<'a> + 'a> FollowStart<T> {
//@ fn follow.rs FollowStart new
//@ endfn
//@ fn follow.rs FollowStart self_follow
    requires T::follow_req(buf@, loc as int),
    ensures T::follow_post(buf@, loc as int, r),
//@ endfn
}

// ------------------------------------------------------------------ primitives.rs
//@ item primitives.rs struct ForwardsUOffset pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~ForwardsUOffset
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool {
        loc + 4 <= usize::MAX
        && (loc + 4 <= buf.len() ==> loc + u32_at(buf, loc) <= usize::MAX && T::follow_req(buf, loc + u32_at(buf, loc)))
    }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        if loc + 4 <= buf.len() { T::follow_post(buf, loc + u32_at(buf, loc), r) }
        else { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
    }
//@ fn primitives.rs Follow~for~ForwardsUOffset follow
//@ hint start
    proof { if loc + 4 <= buf@.len() { assert(buf@.subrange(loc as int, loc + 4).subrange(0, 4) =~= buf@.subrange(loc as int, loc + 4)); } }
//@ endfn
//@ end

//@ impl primitives.rs FollowBuf~for~ForwardsUOffset
    open spec fn follow_buf_req(buf: Seq<u8>, loc: int) -> bool {
        loc + 4 <= usize::MAX
        && (loc + 4 <= buf.len() ==> loc + u32_at(buf, loc) <= usize::MAX && T::follow_buf_req(buf, loc + u32_at(buf, loc)))
    }
    open spec fn follow_buf_post(buf: Self::Buf, loc: int, r: Result<Self::Inner, Error>) -> bool {
        let b = as_ref_spec(&buf);
        if loc + 4 <= b.len() { T::follow_buf_post(buf, loc + u32_at(b, loc), r) }
        else { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
    }
//@ fn primitives.rs FollowBuf~for~ForwardsUOffset follow_buf
//@ hint start
    proof { let b = as_ref_spec(&buf); if loc + 4 <= b.len() { assert(b.subrange(loc as int, loc + 4).subrange(0, 4) =~= b.subrange(loc as int, loc + 4)); } }
//@ endfn
//@ end
impl<T> ForwardsUOffset<T> {
//@ fn primitives.rs ForwardsUOffset value
    ensures r == self.0,
//@ endfn
}

//@ item primitives.rs struct ForwardsVOffset pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~ForwardsVOffset
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool {
        loc + 2 <= usize::MAX
        && (loc + 2 <= buf.len() ==> loc + u16_at(buf, loc) <= usize::MAX && T::follow_req(buf, loc + u16_at(buf, loc)))
    }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        if loc + 2 <= buf.len() { T::follow_post(buf, loc + u16_at(buf, loc), r) }
        else { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
    }
//@ fn primitives.rs Follow~for~ForwardsVOffset follow
//@ hint start
    proof { if loc + 2 <= buf@.len() { assert(buf@.subrange(loc as int, loc + 2).subrange(0, 2) =~= buf@.subrange(loc as int, loc + 2)); } }
//@ endfn
//@ end

//@ item primitives.rs struct BackwardsSOffset pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~BackwardsSOffset
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool {
        buf.len() <= BUFMAX() && loc <= LOCMAX()
        && (loc + 4 <= buf.len() && loc - i32_at(buf, loc) >= 0 ==> T::follow_req(buf, loc - i32_at(buf, loc)))
    }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        if loc + 4 <= buf.len() && loc - i32_at(buf, loc) >= 0 { T::follow_post(buf, loc - i32_at(buf, loc), r) }
        else { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
    }
//@ fn primitives.rs Follow~for~BackwardsSOffset follow
//@ hint start
    proof { if loc + 4 <= buf@.len() { assert(buf@.subrange(loc as int, loc + 4).subrange(0, 4) =~= buf@.subrange(loc as int, loc + 4)); } }
//@ endfn
//@ end

//@ item primitives.rs struct SkipSizePrefix pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~SkipSizePrefix
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 4 <= usize::MAX && T::follow_req(buf, loc + 4) }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { T::follow_post(buf, loc + 4, r) }
//@ fn primitives.rs Follow~for~SkipSizePrefix follow
//@ endfn
//@ end
//@ impl primitives.rs FollowBuf~for~SkipSizePrefix
    open spec fn follow_buf_req(buf: Seq<u8>, loc: int) -> bool { loc + 4 <= usize::MAX && T::follow_buf_req(buf, loc + 4) }
    open spec fn follow_buf_post(buf: Self::Buf, loc: int, r: Result<Self::Inner, Error>) -> bool { T::follow_buf_post(buf, loc + 4, r) }
//@ fn primitives.rs FollowBuf~for~SkipSizePrefix follow_buf
//@ endfn
//@ end
//@ item primitives.rs struct SkipRootOffset pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~SkipRootOffset
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 4 <= usize::MAX && T::follow_req(buf, loc + 4) }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { T::follow_post(buf, loc + 4, r) }
//@ fn primitives.rs Follow~for~SkipRootOffset follow
//@ endfn
//@ end
//@ item primitives.rs struct FileIdentifier
//@ impl primitives.rs Follow~for~FileIdentifier
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 4 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        if loc + 4 <= buf.len() { r is Ok && r->Ok_0@ == buf.subrange(loc, loc + 4) }
        else { r == Err::<Self::Inner, Error>(Error::OutOfBounds) }
    }
//@ fn primitives.rs Follow~for~FileIdentifier follow
//@ endfn
//@ end
//@ item primitives.rs struct SkipFileIdentifier pubfields attr:verifier::reject_recursive_types(T)
//@ impl primitives.rs Follow~for~SkipFileIdentifier
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 4 <= usize::MAX && T::follow_req(buf, loc + 4) }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { T::follow_post(buf, loc + 4, r) }
//@ fn primitives.rs Follow~for~SkipFileIdentifier follow
//@ endfn
//@ end

pub open spec fn scalar_post<T: EndianScalar>(buf: Seq<u8>, loc: int, r: Result<T, Error>) -> bool {
    if loc + T::width() <= buf.len() { r == Ok::<T, Error>(T::dec(buf.subrange(loc, loc + T::width()))) }
    else { r == Err::<T, Error>(Error::OutOfBounds) }
}
//@ impl primitives.rs Follow~for~bool
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<bool>(buf, loc, r) }
//@ fn primitives.rs Follow~for~bool follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~u8
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<u8>(buf, loc, r) }
//@ fn primitives.rs Follow~for~u8 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~u16
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<u16>(buf, loc, r) }
//@ fn primitives.rs Follow~for~u16 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~u32
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<u32>(buf, loc, r) }
//@ fn primitives.rs Follow~for~u32 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~u64
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<u64>(buf, loc, r) }
//@ fn primitives.rs Follow~for~u64 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~i8
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<i8>(buf, loc, r) }
//@ fn primitives.rs Follow~for~i8 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~i16
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<i16>(buf, loc, r) }
//@ fn primitives.rs Follow~for~i16 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~i32
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<i32>(buf, loc, r) }
//@ fn primitives.rs Follow~for~i32 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~i64
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<i64>(buf, loc, r) }
//@ fn primitives.rs Follow~for~i64 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~f32
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<f32>(buf, loc, r) }
//@ fn primitives.rs Follow~for~f32 follow
//@ endfn
//@ end
//@ impl primitives.rs Follow~for~f64
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { loc + 8 <= usize::MAX }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool { scalar_post::<f64>(buf, loc, r) }
//@ fn primitives.rs Follow~for~f64 follow
//@ endfn
//@ end

// ------------------------------------------------------------------ vtable.rs
//@ item vtable.rs struct VTable pubfields
impl<'a> VTable<'a> {
    pub open spec fn ok(&self) -> bool { self.buf@.len() <= BUFMAX() && self.loc <= LOCMAX() + 0x1_0000_0000 }
    pub open spec fn readable(&self) -> bool { self.loc + 2 <= self.buf@.len() }
    pub open spec fn size(&self) -> int { u16_at(self.buf@, self.loc as int) }
    // what the vtable says about the entry at byte position b
    pub open spec fn entry(&self, b: int) -> Result<Option<VOffsetT>, Error> {
        if !self.readable() { Err(Error::OutOfBounds) }
        else if b >= self.size() { Ok(None) }
        else if self.loc + b + 2 > self.buf@.len() { Err(Error::OutOfBounds) }
        else { Ok(Some(u16_at(self.buf@, self.loc + b) as u16)) }
    }
//@ fn vtable.rs VTable init
    ensures r.buf@ == buf@, r.loc == loc,
//@ endfn
//@ fn vtable.rs VTable num_bytes
    requires self.ok(),
    ensures
        self.readable() ==> r == Ok::<usize, Error>(self.size() as usize),
        !self.readable() ==> r == Err::<usize, Error>(Error::OutOfBounds),
//@ endfn
//@ fn vtable.rs VTable num_fields
    requires self.ok(),
    ensures
        self.readable() ==> r == Ok::<usize, Error>((if self.size() >= 4 { self.size() / 2 - 2 } else { 0 }) as usize),
        !self.readable() ==> r == Err::<usize, Error>(Error::OutOfBounds),
//@ endfn
//@ fn vtable.rs VTable object_inline_num_bytes
    requires self.ok(),
    ensures
        self.loc + 4 <= self.buf@.len() ==> r == Ok::<usize, Error>(u16_at(self.buf@, self.loc + 2) as usize),
        self.loc + 4 > self.buf@.len() ==> r == Err::<usize, Error>(Error::OutOfBounds),
//@ endfn
//@ fn vtable.rs VTable get_field
    requires self.ok(),
    ensures
        !self.readable() ==> r == Err::<Option<VOffsetT>, Error>(Error::OutOfBounds),
        self.readable() && 4 + 2 * idx + 2 > self.size() ==> r == Ok::<Option<VOffsetT>, Error>(None),
        self.readable() && 4 + 2 * idx + 2 <= self.size() ==> r == self.entry(4 + 2 * idx),
//@ endfn
//@ fn vtable.rs VTable get
    requires self.ok(),
    ensures r == self.entry(byte_loc as int),
//@ endfn
//@ fn vtable.rs VTable as_bytes
    requires self.ok(),
    ensures
        !self.readable() || self.loc + self.size() > self.buf@.len() ==> r == Err::<&[u8], Error>(Error::OutOfBounds),
        self.readable() && self.loc + self.size() <= self.buf@.len() ==>
            r is Ok && r->Ok_0@ == self.buf@.subrange(self.loc as int, self.loc + self.size()),
//@ endfn
}
impl<'a> VTable<'a> {
    pub open spec fn bytes_spec(&self) -> Option<Seq<u8>> {
        if !self.readable() || self.loc + self.size() > self.buf@.len() { None }
        else { Some(self.buf@.subrange(self.loc as int, self.loc + self.size())) }
    }
//@ fn vtable.rs PartialEq~for~VTable eq eqres
    requires self.ok(), other.ok(),
    ensures r == (self.bytes_spec() == other.bytes_spec()),
//@ endfn
}
//@ impl vtable.rs Follow~for~VTable
    open spec fn follow_req(buf: Seq<u8>, loc: int) -> bool { true }
    open spec fn follow_post(buf: Seq<u8>, loc: int, r: Result<Self::Inner, Error>) -> bool {
        r is Ok && r->Ok_0.buf@ == buf && r->Ok_0.loc == loc
    }
//@ fn vtable.rs Follow~for~VTable follow
//@ endfn
//@ end
//@ fn vtable.rs - field_index_to_field_offset
    requires field_id <= 32765,
    ensures r == 4 + 2 * field_id,
//@ hint start
    proof { assert(forall|a: int, b: int| #![trigger a * b] b == 2 ==> a * b == 2 * a) by(nonlinear_arith); }
//@ endfn
//@ fn vtable.rs - field_offset_to_field_index
    requires field_o >= 4,
    ensures r == (field_o - 4) / 2,
//@ endfn

// ------------------------------------------------------------------ table.rs
//@ item table.rs struct Table
pub open spec fn tab_has_vtable(b: Seq<u8>, loc: int) -> bool { loc + 4 <= b.len() && loc - i32_at(b, loc) >= 0 }
pub open spec fn tab_vtable_loc(b: Seq<u8>, loc: int) -> int { loc - i32_at(b, loc) }
// the vtable entry for a slot: Err (not in the buffer), 0 (absent) or the offset of the field
pub open spec fn tab_slot(b: Seq<u8>, loc: int, s: int) -> Result<int, Error> {
    let v = tab_vtable_loc(b, loc);
    if !tab_has_vtable(b, loc) || v + 2 > b.len() { Err(Error::OutOfBounds) }
    else if s >= u16_at(b, v) { Ok(0) }
    else if v + s + 2 > b.len() { Err(Error::OutOfBounds) }
    else { Ok(u16_at(b, v + s)) }
}
impl<B> Table<B> {
//@ fn table.rs Table new
    ensures r.buf == buf, r.loc == loc,
//@ endfn
}
impl<B> Table<B> where B: std::convert::AsRef<[u8]> {
    pub open spec fn bytes(&self) -> Seq<u8> { as_ref_spec(&self.buf) }
    pub open spec fn ok(&self) -> bool { self.bytes().len() <= BUFMAX() && self.loc <= LOCMAX() }
    pub open spec fn has_vtable(&self) -> bool { tab_has_vtable(self.bytes(), self.loc as int) }
    pub open spec fn vtable_loc(&self) -> int { tab_vtable_loc(self.bytes(), self.loc as int) }
    pub open spec fn slot(&self, s: int) -> Result<int, Error> { tab_slot(self.bytes(), self.loc as int, s) }
    pub open spec fn get_post<'a, T: Follow<'a>>(&self, s: int, default: Option<T::Inner>, r: Result<Option<T::Inner>, Error>) -> bool {
        match self.slot(s) {
            Err(e) => r == Err::<Option<T::Inner>, Error>(e),
            Ok(o) => if o == 0 { r == Ok::<Option<T::Inner>, Error>(default) }
                else { match r {
                    Ok(v) => v is Some && T::follow_post(self.bytes(), self.loc + o, Ok(v->Some_0)),
                    Err(e) => T::follow_post(self.bytes(), self.loc + o, Err(e)),
                } },
        }
    }
//@ fn table.rs Table get_root
    requires as_ref_spec(&buf).len() <= BUFMAX(),
    ensures
        as_ref_spec(&buf).len() >= 4 ==> r == Ok::<Self, Error>(Table { buf, loc: u32_at(as_ref_spec(&buf), 0) as usize }),
        as_ref_spec(&buf).len() < 4 ==> r == Err::<Self, Error>(Error::OutOfBounds),
//@ endfn
//@ fn table.rs Table get_size_prefixed_root
    requires as_ref_spec(&buf).len() <= BUFMAX(),
    ensures
        as_ref_spec(&buf).len() >= 8 ==> r == Ok::<Self, Error>(Table { buf, loc: (4 + u32_at(as_ref_spec(&buf), 4)) as usize }),
        as_ref_spec(&buf).len() < 8 ==> r == Err::<Self, Error>(Error::OutOfBounds),
//@ endfn
//@ fn table.rs Table vtable
    requires self.ok(),
    ensures
        self.has_vtable() ==> r is Ok && r->Ok_0.buf@ == self.bytes() && r->Ok_0.loc == self.vtable_loc(),
        !self.has_vtable() ==> r is Err && r->Err_0 == Error::OutOfBounds,
//@ endfn
//@ fn table.rs Table get
    requires
        self.ok(),
        match self.slot(slot_byte_loc as int) { Ok(o) => o != 0 ==> T::follow_req(self.bytes(), self.loc + o), Err(_) => true },
    ensures self.get_post::<T>(slot_byte_loc as int, default, r),
//@ endfn
}
//@ impl table.rs FollowBuf~for~Table
    open spec fn follow_buf_req(buf: Seq<u8>, loc: int) -> bool { true }
    open spec fn follow_buf_post(buf: Self::Buf, loc: int, r: Result<Self::Inner, Error>) -> bool {
        r == Ok::<Table<B>, Error>(Table { buf, loc: loc as usize })
    }
//@ fn table.rs FollowBuf~for~Table follow_buf
//@ endfn
//@ end
//@ fn table.rs - get_root
    requires <ForwardsUOffset<T> as FollowBuf>::follow_buf_req(as_ref_spec(&data), 0),
    ensures <ForwardsUOffset<T> as FollowBuf>::follow_buf_post(data, 0, r),
//@ endfn
//@ fn table.rs - get_size_prefixed_root
    requires <ForwardsUOffset<T> as FollowBuf>::follow_buf_req(as_ref_spec(&data), 4),
    ensures <ForwardsUOffset<T> as FollowBuf>::follow_buf_post(data, 4, r),
//@ endfn

// ident: &str; its bytes
//@ fn table.rs - buffer_has_identifier
    requires data@.len() <= BUFMAX(), strict() ==> ident.spec_bytes().len() == 4,
    ensures
        ident.spec_bytes().len() == 4,
        ({
            let p: int = if size_prefixed { 8 } else { 4 };
            &&& p + 4 <= data@.len() ==> r == Ok::<bool, Error>(ident.spec_bytes() == data@.subrange(p, p + 4))
            &&& p + 4 > data@.len() ==> r == Err::<bool, Error>(Error::OutOfBounds)
        }),
//@ hint start
    proof { axiom_str_len(ident); }
//@ hint result
    proof { assert(ident.spec_bytes() =~= got@ <==> ident.spec_bytes() == got@); }
//@ endfn

