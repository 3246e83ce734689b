#![feature(sized_hierarchy, const_destruct)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::layout::*;
use std::marker::PhantomData;
use std::mem::{size_of, align_of};
use std::cmp::max;
use std::str::from_utf8;
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::string::StringSliceAdditionalSpecFns;

verus! {

global size_of usize == 8;

// ------------------------------------------------------------------ trusted base
// Runtime checks.  `strict()` is an arbitrary constant: every function is checked for
// both values at once.  With strict() a check must be provable where it stands (a legal
// call never panics); without it, execution continues only when the check held (an
// illegal call does not return).
pub uninterp spec fn strict() -> bool;

#[verifier::external_body]
pub fn vx_dbg_assert(c: bool)
    requires strict() ==> c,
    ensures c,
{
    assert!(c);
}

#[verifier::external_body]
pub fn vx_rt_assert(c: bool)
    requires strict() ==> c,
    ensures c,
{
    assert!(c);
}

pub trait VxExpect: Sized {
    type Out;
    spec fn vx_ok(self) -> bool;
    spec fn vx_val(self) -> Self::Out;
    fn vx_expect(self) -> (r: Self::Out)
        requires strict() ==> self.vx_ok(),
        ensures self.vx_ok(), r == self.vx_val();
}
impl<T> VxExpect for Option<T> {
    type Out = T;
    open spec fn vx_ok(self) -> bool { self is Some }
    open spec fn vx_val(self) -> T { self->Some_0 }
    #[verifier::external_body]
    fn vx_expect(self) -> (r: T) { self.unwrap() }
}
impl<T> VxExpect for Result<T, Error> {
    type Out = T;
    open spec fn vx_ok(self) -> bool { self is Ok }
    open spec fn vx_val(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_expect(self) -> (r: T) { self.unwrap() }
}

pub trait VxMapSome<T>: Sized {
    spec fn vx_ms(self) -> Result<Option<T>, Error>;
    fn vx_map_some(self) -> (r: Result<Option<T>, Error>)
        ensures r == self.vx_ms();
}
impl<T> VxMapSome<T> for Result<T, Error> {
    open spec fn vx_ms(self) -> Result<Option<T>, Error> {
        match self { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
    fn vx_map_some(self) -> (r: Result<Option<T>, Error>) {
        match self { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
}

pub trait VxOrErr<T>: Sized {
    spec fn vx_oe(self) -> Option<T>;
    fn vx_or_err(self, e: Error) -> (r: Result<T, Error>)
        ensures r == (match self.vx_oe() { Some(x) => Ok::<T, Error>(x), None => Err::<T, Error>(e) });
}
impl<T, E> VxOrErr<T> for Result<T, E> {
    open spec fn vx_oe(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_or_err(self, e: Error) -> (r: Result<T, Error>) {
        match self { Ok(x) => Ok(x), Err(_) => Err(e) }
    }
}

pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (match a { Ok(x) => x, Err(_) => d });

// no str is longer than isize::MAX bytes
pub axiom fn axiom_str_len(s: &str) ensures s.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff;

// std: from_utf8 accepts exactly the valid UTF-8 sequences and returns the same bytes
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub assume_specification<'a> [core::str::from_utf8] (v: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures
        vstd::utf8::valid_utf8(v@) ==> r is Ok && r->Ok_0.spec_bytes() == v@,
        !vstd::utf8::valid_utf8(v@) ==> r is Err;

// unsafe write_bytes(p, 0, n) on the start of a slice
#[verifier::external_body]
pub fn vx_write_zero(s: &mut [u8], n: usize)
    requires n <= old(s)@.len(),
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@ == zeros(n as nat) + old(s)@.subrange(n as int, old(s)@.len() as int),
{
    unsafe { std::ptr::write_bytes(s.as_mut_ptr(), 0, n) }
}

#[verifier::external_body]
pub fn vx_set_len<T>(v: &mut Vec<T>, n: usize)
    requires n <= 0x8000_0000,
    ensures final(v)@.len() == n,
{
    unimplemented!()
}

pub assume_specification<T: core::cmp::Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if <T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { a } else { b });

pub assume_specification<T: core::cmp::Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if <T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification [usize::wrapping_neg] (a: usize) -> (r: usize)
    ensures r == (if a == 0 { 0 } else { 0x1_0000_0000_0000_0000 - a });

// ------------------------------------------------------------------ spec vocabulary
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

pub broadcast proof fn lemma_sub_empty(v: Seq<u8>, a: int, b: int)
    requires 0 <= a <= v.len(), a == b,
    ensures #[trigger] v.subrange(a, b) == Seq::<u8>::empty(),
{
    assert(v.subrange(a, b) =~= Seq::<u8>::empty());
}

// no byte slice is this long on a 64-bit target
pub open spec fn BUFMAX() -> int { 0x4000_0000_0000_0000 }
// every location reached by following offsets out of a buffer is below this
pub open spec fn LOCMAX() -> int { 0x4000_0100_0000_0000 }

pub open spec fn dec16(s: Seq<u8>) -> u16 { (s[0] as int + 256 * (s[1] as int)) as u16 }
pub open spec fn dec32(s: Seq<u8>) -> u32 {
    (s[0] as int + 0x100 * (s[1] as int) + 0x1_0000 * (s[2] as int) + 0x100_0000 * (s[3] as int)) as u32
}
pub open spec fn dec64(s: Seq<u8>) -> u64 {
    (dec32(s.subrange(0, 4)) as int + 0x1_0000_0000 * (dec32(s.subrange(4, 8)) as int)) as u64
}
pub open spec fn enc16(x: u16) -> Seq<u8> { seq![(x % 256) as u8, (x / 256) as u8] }
pub open spec fn enc32(x: u32) -> Seq<u8> {
    seq![(x % 256) as u8, (x / 0x100 % 256) as u8, (x / 0x1_0000 % 256) as u8, (x / 0x100_0000) as u8]
}
pub open spec fn enc64(x: u64) -> Seq<u8> {
    enc32((x % 0x1_0000_0000) as u32) + enc32((x / 0x1_0000_0000) as u32)
}
pub open spec fn u16_at(s: Seq<u8>, loc: int) -> int { dec16(s.subrange(loc, loc + 2)) as int }
pub open spec fn u32_at(s: Seq<u8>, loc: int) -> int { dec32(s.subrange(loc, loc + 4)) as int }
pub open spec fn i32_at(s: Seq<u8>, loc: int) -> int { dec32(s.subrange(loc, loc + 4)) as i32 as int }

pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_bits(x: f64) -> u64;
pub uninterp spec fn f64_of(b: u64) -> f64;
pub broadcast axiom fn axiom_f32(x: f32) ensures #[trigger] f32_of(f32_bits(x)) == x;
pub broadcast axiom fn axiom_f64(x: f64) ensures #[trigger] f64_of(f64_bits(x)) == x;

pub proof fn lemma_dec_enc16(x: u16) ensures dec16(enc16(x)) == x, enc16(x).len() == 2 {}
pub proof fn lemma_dec_enc32(x: u32) ensures dec32(enc32(x)) == x, enc32(x).len() == 4 {
    let a = (x % 256) as int; let b = (x / 0x100 % 256) as int; let c = (x / 0x1_0000 % 256) as int; let d = (x / 0x100_0000) as int;
    assert(a + 0x100 * b + 0x1_0000 * c + 0x100_0000 * d == x);
}
pub proof fn lemma_dec_enc64(x: u64) ensures dec64(enc64(x)) == x, enc64(x).len() == 8 {
    let l = (x % 0x1_0000_0000) as u32; let h = (x / 0x1_0000_0000) as u32;
    lemma_dec_enc32(l); lemma_dec_enc32(h);
    assert(enc64(x).subrange(0, 4) =~= enc32(l));
    assert(enc64(x).subrange(4, 8) =~= enc32(h));
}


//@ item error.rs enum Error derive:Clone,Copy,Debug

// std: derived equality of Result and slice equality
#[verifier::external_body]
pub fn vx_res_eq(a: Result<&[u8], Error>, b: Result<&[u8], Error>) -> (r: bool)
    ensures r == (match (a, b) { (Ok(x), Ok(y)) => x@ == y@, (Err(x), Err(y)) => x == y, _ => false }),
{ unimplemented!() }

// ------------------------------------------------------------------ endian_scalar.rs
//@ trait endian_scalar.rs EndianScalar
    // the value as little-endian bytes, and back
    spec fn enc(self) -> Seq<u8>;
    spec fn dec(s: Seq<u8>) -> Self;
    spec fn width() -> nat;
    proof fn lemma_scalar(self)
        ensures self.enc().len() == Self::width(), Self::dec(self.enc()) == self;
    // false only for a bool byte above 1 (known finding: read_scalar::<bool>)
    spec fn valid(s: Seq<u8>) -> bool;
    proof fn lemma_valid(self)
        ensures Self::valid(self.enc());
    proof fn lemma_size()
        ensures size_of::<Self>() == Self::width(), 1 <= Self::width() <= 8;
//@ fn endian_scalar.rs EndianScalar to_little_endian trait
    ensures r == self,
//@ endfn
//@ fn endian_scalar.rs EndianScalar from_little_endian trait
    ensures r == self,
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~bool
    open spec fn enc(self) -> Seq<u8> { seq![if self { 1u8 } else { 0u8 }] }
    open spec fn dec(s: Seq<u8>) -> bool { s[0] != 0 }
    open spec fn width() -> nat { 1 }
    open spec fn valid(s: Seq<u8>) -> bool { s[0] <= 1 }
    proof fn lemma_scalar(self) {}
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~bool to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~bool from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~u8
    open spec fn enc(self) -> Seq<u8> { seq![self] }
    open spec fn dec(s: Seq<u8>) -> u8 { s[0] }
    open spec fn width() -> nat { 1 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) {}
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~u8 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~u8 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~i8
    open spec fn enc(self) -> Seq<u8> { seq![self as u8] }
    open spec fn dec(s: Seq<u8>) -> i8 { s[0] as i8 }
    open spec fn width() -> nat { 1 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { assert((self as u8) as i8 == self) by(bit_vector); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~i8 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~i8 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~u16
    open spec fn enc(self) -> Seq<u8> { enc16(self) }
    open spec fn dec(s: Seq<u8>) -> u16 { dec16(s) }
    open spec fn width() -> nat { 2 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc16(self); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~u16 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~u16 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~i16
    open spec fn enc(self) -> Seq<u8> { enc16(self as u16) }
    open spec fn dec(s: Seq<u8>) -> i16 { dec16(s) as i16 }
    open spec fn width() -> nat { 2 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc16(self as u16); assert((self as u16) as i16 == self) by(bit_vector); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~i16 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~i16 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~u32
    open spec fn enc(self) -> Seq<u8> { enc32(self) }
    open spec fn dec(s: Seq<u8>) -> u32 { dec32(s) }
    open spec fn width() -> nat { 4 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc32(self); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~u32 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~u32 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~i32
    open spec fn enc(self) -> Seq<u8> { enc32(self as u32) }
    open spec fn dec(s: Seq<u8>) -> i32 { dec32(s) as i32 }
    open spec fn width() -> nat { 4 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc32(self as u32); assert((self as u32) as i32 == self) by(bit_vector); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~i32 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~i32 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~u64
    open spec fn enc(self) -> Seq<u8> { enc64(self) }
    open spec fn dec(s: Seq<u8>) -> u64 { dec64(s) }
    open spec fn width() -> nat { 8 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc64(self); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~u64 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~u64 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~i64
    open spec fn enc(self) -> Seq<u8> { enc64(self as u64) }
    open spec fn dec(s: Seq<u8>) -> i64 { dec64(s) as i64 }
    open spec fn width() -> nat { 8 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc64(self as u64); assert((self as u64) as i64 == self) by(bit_vector); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { broadcast use group_layout_axioms; }
//@ fn endian_scalar.rs EndianScalar~for~i64 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~i64 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~f32
    open spec fn enc(self) -> Seq<u8> { enc32(f32_bits(self)) }
    open spec fn dec(s: Seq<u8>) -> f32 { f32_of(dec32(s)) }
    open spec fn width() -> nat { 4 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc32(f32_bits(self)); axiom_f32(self); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { axiom_float_layout(); }
//@ fn endian_scalar.rs EndianScalar~for~f32 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~f32 from_little_endian
//@ endfn
//@ end
//@ impl endian_scalar.rs EndianScalar~for~f64
    open spec fn enc(self) -> Seq<u8> { enc64(f64_bits(self)) }
    open spec fn dec(s: Seq<u8>) -> f64 { f64_of(dec64(s)) }
    open spec fn width() -> nat { 8 }
    open spec fn valid(s: Seq<u8>) -> bool { true }
    proof fn lemma_scalar(self) { lemma_dec_enc64(f64_bits(self)); axiom_f64(self); }
    proof fn lemma_valid(self) {}
    proof fn lemma_size() { axiom_float_layout(); }
//@ fn endian_scalar.rs EndianScalar~for~f64 to_little_endian
//@ endfn
//@ fn endian_scalar.rs EndianScalar~for~f64 from_little_endian
//@ endfn
//@ end
// x86-64 layout facts vstd does not provide; each is a const assertion in the native crate
pub axiom fn axiom_float_layout()
    ensures size_of::<f32>() == 4, align_of::<f32>() == 4, size_of::<f64>() == 8, align_of::<f64>() == 8;

// a little-endian target: the conversions of the integers are the identity
//@ foreach T u16 u32 u64 i16 i32 i64
pub assume_specification [$T::to_le] (x: $T) -> (r: $T) ensures r == x;
pub assume_specification [$T::from_le] (x: $T) -> (r: $T) ensures r == x;
//@ endforeach
// raw memory: a scalar occupies size_of bytes, the bytes of enc() (x86-64); the pointer is the
// start of the slice and only valid for its length
#[verifier::external_body]
pub fn vx_write_unaligned<T: EndianScalar>(s: &mut [u8], v: T)
    requires old(s)@.len() >= T::width(),
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@ == v.enc() + old(s)@.subrange(T::width() as int, old(s)@.len() as int),
{ unsafe { (s.as_mut_ptr() as *mut T).write_unaligned(v) } }
#[verifier::external_body]
pub fn vx_read_unaligned<T: EndianScalar>(s: &[u8]) -> (r: T)
    requires s@.len() >= T::width(), T::valid(s@.subrange(0, T::width() as int)),
    ensures r == T::dec(s@.subrange(0, T::width() as int)),
{ unsafe { (s.as_ptr() as *const T).read_unaligned() } }

//@ fn endian_scalar.rs - emplace_scalar
    requires old(s)@.len() >= T::width(),
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@ == x.enc() + old(s)@.subrange(T::width() as int, old(s)@.len() as int),
//@ hint start
    proof { T::lemma_size(); x.lemma_scalar(); }
//@ hint end
    proof { assert(s@ =~= x.enc() + old(s)@.subrange(T::width() as int, old(s)@.len() as int)); }
//@ endfn
//@ fn endian_scalar.rs - read_scalar
    requires s@.len() >= T::width() ==> T::valid(s@.subrange(0, T::width() as int)),
    ensures
        s@.len() >= T::width() ==> r == Ok::<T, Error>(T::dec(s@.subrange(0, T::width() as int))),
        s@.len() < T::width() ==> r == Err::<T, Error>(Error::OutOfBounds),
//@ hint start
    proof { T::lemma_size(); if s@.len() >= T::width() { let u = s@.subrange(0, T::width() as int); assert(u.subrange(0, T::width() as int) =~= u); } }
//@ endfn
//@ fn endian_scalar.rs - read_scalar_at
    requires
        loc + 8 <= usize::MAX,
        loc + T::width() <= s@.len() ==> T::valid(s@.subrange(loc as int, loc + T::width())),
    ensures
        loc + T::width() <= s@.len() ==> r == Ok::<T, Error>(T::dec(s@.subrange(loc as int, loc + T::width()))),
        loc + T::width() > s@.len() ==> r == Err::<T, Error>(Error::OutOfBounds),
//@ hint start
    proof {
        T::lemma_size();
        if loc + T::width() <= s@.len() {
            assert(s@.subrange(loc as int, loc + T::width()).subrange(0, T::width() as int) =~= s@.subrange(loc as int, loc + T::width()));
        }
    }
//@ endfn
