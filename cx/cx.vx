#![feature(sized_hierarchy, const_destruct, allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;

// ------------------------------------------------------------------ trusted base
pub mod vx {
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
pub uninterp spec fn f64_of(b: u64) -> f64;
#[verifier::external_body]
pub fn vx_f64(b: u64) -> (r: f64) ensures r == f64_of(b) { f64::from_bits(b) }

// text of a name in the schema or the generated code
#[verifier::external_body]
pub struct Cow<'a> { s: std::borrow::Cow<'a, str> }
impl<'a> View for Cow<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// a name is its text
pub uninterp spec fn cow_of<'a>(s: Seq<char>) -> Cow<'a>;
pub broadcast axiom fn cow_text<'a>(s: Seq<char>) ensures #[trigger] cow_of::<'a>(s)@ == s;
pub broadcast axiom fn cow_is_text<'a>(c: Cow<'a>) ensures cow_of::<'a>(#[trigger] c@) == c;
impl<'a> Clone for Cow<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Cow<'a> {
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Borrowed(s: &'a str) -> (r: Cow<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn Owned(s: String) -> (r: Cow<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub uninterp spec fn snake(s: Seq<char>) -> Seq<char>;
pub trait SnakeCase { spec fn vx_text(&self) -> Seq<char>; fn to_snake_case(&self) -> (r: String) ensures r@ == snake(self.vx_text()); }
impl SnakeCase for str {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn to_snake_case(&self) -> (r: String) { unimplemented!() }
}
pub trait VxText { spec fn vx_shown(&self) -> Seq<char>; }
impl VxText for String { open spec fn vx_shown(&self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn vx_shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_concat<T: VxText>(a: &str, x: &T, b: &str) -> (r: String) ensures r@ == a@ + x.vx_shown() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_prefixed<T: VxText>(a: &str, x: &T) -> (r: String) ensures r@ == a@ + x.vx_shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_suffixed<T: VxText>(x: &T, b: &str) -> (r: String) ensures r@ == x.vx_shown() + b@ { unimplemented!() }

pub struct Error { }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[verifier::external_body]
pub fn vx_anyhow() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn vx_unimplemented<T>() -> (r: T) ensures false { unimplemented!() }

pub trait VxDefault: Sized { spec fn vx_is_default(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::vx_is_default(r); }
pub trait VxExpect<T>: Sized { spec fn vx_val(self) -> Option<T>; fn vx_expect(self) -> (r: T) requires self.vx_val() is Some, ensures self.vx_val() == Some(r); }
impl<T> VxExpect<T> for Option<T> {
    open spec fn vx_val(self) -> Option<T> { self }
    fn vx_expect(self) -> (r: T) { match self { Some(x) => x, None => vstd::pervasive::unreached() } }
}

// maps keyed by the text of their keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K: View, V> { k: PhantomData<K>, v: Vec<V> }
use std::marker::PhantomData;
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: PhantomData<K>, v: Vec<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: View> { k: PhantomData<K> }
impl<K: View> View for HashSet<K> { type V = ISet<K::V>; uninterp spec fn view(&self) -> ISet<K::V>; }
impl<K: View> HashSet<K> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}

// iterator chains and vectors
#[verifier::external_body]
pub fn vx_vec0<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(a).push(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cons<T>(x: T, v: Vec<T>) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty().push(x) + v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_repeat_chain<T>(x: T, n: usize, v: Vec<T>) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) + v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
pub open spec fn texts<T: View>(s: Seq<T>) -> Seq<T::V> { s.map_values(|x: T| x@) }
pub broadcast proof fn texts_pair<T: View>(a: T, b: T) ensures #[trigger] texts(Seq::<T>::empty().push(a).push(b)) == seq![a@, b@] { assert(texts(seq![a, b]) =~= seq![a@, b@]); }
pub broadcast proof fn texts_one<T: View>(a: T) ensures #[trigger] texts(Seq::<T>::empty().push(a)) == seq![a@] { assert(texts(seq![a]) =~= seq![a@]); }
pub broadcast proof fn cons_tail<T>(a: T, s: Seq<T>) ensures #[trigger] (Seq::<T>::empty().push(a) + s).skip(1) == s { assert((seq![a] + s).skip(1) =~= s); }
#[verifier::external_body]
pub fn vx_common_prefix<T: View>(a: &[T], b: &[T]) -> (r: usize)
    ensures r <= a@.len(), r <= b@.len(),
        texts(a@).take(r as int) == texts(b@).take(r as int),
        r < a@.len() && r < b@.len() ==> a@[r as int]@ != b@[r as int]@ { unimplemented!() }
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (q: &VecDeque<T, A>) -> (r: bool) ensures r == (q@.len() == 0);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T> [std::option::Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct,
    ensures r == (match a { Some(x) => Some(x), None => b });
pub trait VxMapSome<T>: Sized { spec fn vx_o(self) -> Option<T>; fn vx_map_some(self) -> (r: Option<Option<T>>) ensures r == (match self.vx_o() { Some(x) => Some(Some(x)), None => None }); }
impl<T> VxMapSome<T> for Option<T> { open spec fn vx_o(self) -> Option<T> { self } fn vx_map_some(self) -> (r: Option<Option<T>>) { match self { Some(x) => Some(Some(x)), None => None } } }
pub assume_specification<T: Default> [std::mem::take] (x: &mut T) -> (r: T) ensures r == *old(x);
#[verifier::external_body]
pub fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@ == Seq::new(v@.len(), |i: int| (i as usize, v@[i])) { unimplemented!() }
#[verifier::external_body]
pub fn vx_deque<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
pub trait VxExtend<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_extend(&mut self, v: Vec<T>) ensures final(self).vx_seq() == old(self).vx_seq() + v@; }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, v: Vec<T>) { unimplemented!() }
}
}
}

// ------------------------------------------------------------------ keywords (G06)
pub mod keywords {
use vstd::prelude::*;
verus! {
//@ include kw.vx
pub open spec fn fix(s: Seq<char>) -> Seq<char> { match kw_of(s) { Some(k) => k, None => s } }
//@ fn ir/keywords.rs - substitute_keyword
    ensures r is Some == kw_of(input@) is Some, r is Some ==> r->0@ == kw_of(input@)->0
//@ hint start
    proof { kw_literals(input); kw_lits(); reveal_strlit(""); }
//@ endfn
}
}

// ------------------------------------------------------------------ schema syntax
pub mod ast {
pub mod types {
use vstd::prelude::*;
use crate::vx::*;
use vstd::std_specs::convert::*;
verus! {
//@ item ast/types.rs type IntegerConstant
//@ item ast/types.rs type FloatingConstant
//@ item ast/types.rs type BooleanConstant
//@ item ast/types.rs struct Ident attr:derive(Clone,~Copy)
//@ item ast/types.rs struct QualifiedIdent
#[verifier::external_body]
pub struct Comment<'a> { l: Vec<&'a str> }
impl<'a> FromSpecImpl<Vec<&'a str>> for Comment<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Vec<&'a str>) -> Self; }
impl<'a> From<Vec<&'a str>> for Comment<'a> { #[verifier::external_body] fn from(v: Vec<&'a str>) -> (r: Self) { unimplemented!() } }
//@ item ast/types.rs enum Type
//@ item ast/types.rs enum Scalar
//@ item ast/types.rs enum DefaultValue
//@ item ast/types.rs enum Single
//@ item ast/types.rs struct Metadata
//@ item ast/types.rs struct EnumVariant
//@ item ast/types.rs struct Field
//@ item ast/types.rs struct Table
//@ item ast/types.rs struct Struct
//@ item ast/types.rs struct Enum
//@ item ast/types.rs struct Union
//@ item ast/types.rs struct Namespace
//@ item ast/types.rs struct Root
//@ item ast/types.rs struct RpcMethod
//@ item ast/types.rs struct Rpc
//@ item ast/types.rs struct FileExtension
//@ item ast/types.rs struct FileIdentifier
//@ item ast/types.rs struct Attribute
#[verifier::external_body]
pub struct Object<'a> { l: Vec<&'a str> }
//@ item ast/types.rs enum Element
#[verifier::external_body]
pub struct Include<'a> { l: Vec<&'a str> }
//@ item ast/types.rs struct Schema
impl<'a> Ident<'a> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}

impl<'a> View for Ident<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.raw@ } }
impl<'a> View for QualifiedIdent<'a> { type V = Seq<Seq<char>>; open spec fn view(&self) -> Seq<Seq<char>> { texts(self.parts@) } }
//@ foreach T Comment QualifiedIdent DefaultValue Namespace
impl<'a> Clone for $T<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ endforeach
impl<'a> FromSpecImpl<&'a str> for Ident<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a str) -> Self { Ident { raw: v } } }
impl<'a> From<&'a str> for Ident<'a> { fn from(v: &'a str) -> (r: Self) { Ident { raw: v } } }
impl<'a> FromSpecImpl<Vec<Ident<'a>>> for QualifiedIdent<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Vec<Ident<'a>>) -> Self { QualifiedIdent { parts: v } } }
impl<'a> From<Vec<Ident<'a>>> for QualifiedIdent<'a> { fn from(v: Vec<Ident<'a>>) -> (r: Self) { QualifiedIdent { parts: v } } }
// derived conversions
impl FromSpecImpl<i128> for Scalar { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i128) -> Self { Scalar::Integer(v) } }
impl From<i128> for Scalar { fn from(v: i128) -> (r: Self) { Scalar::Integer(v) } }
impl FromSpecImpl<f64> for Scalar { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { Scalar::Float(v) } }
impl From<f64> for Scalar { fn from(v: f64) -> (r: Self) { Scalar::Float(v) } }
impl FromSpecImpl<bool> for Scalar { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { Scalar::Boolean(v) } }
impl From<bool> for Scalar { fn from(v: bool) -> (r: Self) { Scalar::Boolean(v) } }
impl<'a> FromSpecImpl<Scalar> for DefaultValue<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Scalar) -> Self { DefaultValue::Scalar(v) } }
impl<'a> From<Scalar> for DefaultValue<'a> { fn from(v: Scalar) -> (r: Self) { DefaultValue::Scalar(v) } }
// the conversions written out in the source: each body is checked below
impl<'a> FromSpecImpl<i32> for DefaultValue<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Self { DefaultValue::Scalar(Scalar::Integer(v as i128)) } }
impl<'a> From<i32> for DefaultValue<'a> { #[verifier::external_body] fn from(v: i32) -> (r: Self) { unimplemented!() } }
impl<'a> FromSpecImpl<i128> for DefaultValue<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i128) -> Self { DefaultValue::Scalar(Scalar::Integer(v)) } }
impl<'a> From<i128> for DefaultValue<'a> { #[verifier::external_body] fn from(v: i128) -> (r: Self) { unimplemented!() } }
impl<'a> FromSpecImpl<f64> for DefaultValue<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { DefaultValue::Scalar(Scalar::Float(v)) } }
impl<'a> From<f64> for DefaultValue<'a> { #[verifier::external_body] fn from(v: f64) -> (r: Self) { unimplemented!() } }
impl<'a> FromSpecImpl<bool> for DefaultValue<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { DefaultValue::Scalar(Scalar::Boolean(v)) } }
impl<'a> From<bool> for DefaultValue<'a> { #[verifier::external_body] fn from(v: bool) -> (r: Self) { unimplemented!() } }

/// the default of a field that has none written in the schema
pub open spec fn implicit(t: Type<'_>) -> Option<DefaultValue<'_>> {
    match t {
        Type::Array(_) | Type::Ident(_) | Type::String => None,
        Type::Bool => Some(DefaultValue::Scalar(Scalar::Boolean(false))),
        Type::Double | Type::Float | Type::Float32 | Type::Float64 => Some(DefaultValue::Scalar(Scalar::Float(f64_of(0)))),
        _ => Some(DefaultValue::Scalar(Scalar::Integer(0))),
    }
}
#[allow(non_camel_case_types)]
pub mod butte { pub enum Error { NoTypeDefaultValue } }
impl<'a> DefaultValue<'a> {
//@ fn ast/types.rs From<IntegerConstant>~for~DefaultValue from sub:fn~from=>fn~vx_from_i128
    ensures r == DefaultValue::Scalar(Scalar::Integer(value))
//@ endfn
//@ fn ast/types.rs From<i32>~for~DefaultValue from sub:fn~from=>fn~vx_from_i32
    ensures r == DefaultValue::Scalar(Scalar::Integer(value as i128))
//@ endfn
//@ fn ast/types.rs From<FloatingConstant>~for~DefaultValue from sub:fn~from=>fn~vx_from_f64
    ensures r == DefaultValue::Scalar(Scalar::Float(value))
//@ endfn
//@ fn ast/types.rs From<BooleanConstant>~for~DefaultValue from sub:fn~from=>fn~vx_from_bool
    ensures r == DefaultValue::Scalar(Scalar::Boolean(value))
//@ endfn
//@ fn ast/types.rs TryFrom<&Type>~for~DefaultValue try_from sub:fn~try_from=>fn~vx_implicit sub:Self::Error=>butte::Error
    ensures implicit(*ty) is None ==> r is Err, implicit(*ty) is Some ==> r == Ok::<Self, butte::Error>(implicit(*ty)->0)
//@ endfn
}
impl<'a> TryFromSpecImpl<&Type<'a>> for DefaultValue<'a> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &Type<'a>) -> Result<Self, butte::Error> { match implicit(*v) { Some(d) => Ok(d), None => Err(butte::Error::NoTypeDefaultValue) } }
}
impl<'a> TryFrom<&Type<'a>> for DefaultValue<'a> { type Error = butte::Error; #[verifier::external_body] fn try_from(ty: &Type<'a>) -> (r: Result<Self, butte::Error>) { unimplemented!() } }
}
}
}

// ------------------------------------------------------------------ intermediate representation
pub mod ir {
pub use crate::keywords;
pub mod types {
use vstd::prelude::*;
use crate::vx::*;
use crate::ast::types as ast;
use crate::keywords::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
verus! {
broadcast use {crate::vx::cow_text, crate::vx::cow_is_text};
//@ item ir/types.rs struct Ident sub:<'a,~str>=><'a>
//@ item ir/types.rs struct QualifiedIdent
//@ item ir/types.rs enum EnumBaseType attr:derive(Clone,~Copy)
//@ item ir/types.rs struct EnumVariant
//@ item ir/types.rs struct FieldMetadata
//@ item ir/types.rs enum Type
//@ item ir/types.rs struct CustomTypeRef
//@ item ir/types.rs enum CustomType
//@ item ir/types.rs struct UnionVariant
//@ item ir/types.rs struct Field
//@ item ir/types.rs struct Table
//@ item ir/types.rs struct Struct
//@ item ir/types.rs struct Enum
//@ item ir/types.rs struct Union
//@ item ir/types.rs enum RpcStreaming attr:derive(Clone,~Copy)
//@ item ir/types.rs struct RpcMethodMetadata
//@ item ir/types.rs struct RpcMethod
//@ item ir/types.rs struct Rpc
//@ item ir/types.rs struct Namespace
//@ item ir/types.rs enum Node

impl<'a> View for Ident<'a> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.raw@ } }
impl<'a> View for QualifiedIdent<'a> { type V = Seq<Seq<char>>; open spec fn view(&self) -> Seq<Seq<char>> { texts(self.parts@) } }
//@ foreach T Ident QualifiedIdent Type CustomType Field EnumVariant UnionVariant
impl<'a> Clone for $T<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ endforeach
impl<'a> VxDefault for QualifiedIdent<'a> {
    open spec fn vx_is_default(r: Self) -> bool { r.parts@.len() == 0 }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
impl<'a> QualifiedIdent<'a> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.parts@.len() == 0 { unimplemented!() }
}
//@ foreach T Ident QualifiedIdent
impl<'a> PartialEqSpecImpl for $T<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> PartialEq for $T<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
//@ endforeach
impl FieldMetadata {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == (FieldMetadata { required: false }) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl for CustomType<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<'a> PartialEq for CustomType<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub open spec fn fixed<'a>(s: Seq<char>) -> Ident<'a> { Ident { raw: cow_of(fix(s)) } }
impl<'a> Ident<'a> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
//@ fn ir/types.rs Ident fix_identifier sub:Cow<'_,~str>=>Cow<'_>
    ensures r@ == fix(ident@)
//@ endfn
//@ fn ir/types.rs Ident keyword
    ensures r@ == keyword@
//@ endfn
//@ fn ir/types.rs From<ast::Ident>~for~Ident from sub:fn~from=>fn~vx_from_ast
    ensures r == fixed::<'a>(ident@)
//@ endfn
//@ fn ir/types.rs From<&ast::Ident>~for~Ident from sub:fn~from=>fn~vx_from_ast_ref
    ensures r == fixed::<'a>(ident@)
//@ endfn
//@ fn ir/types.rs From<&str>~for~Ident from sub:fn~from=>fn~vx_from_str
    ensures r == fixed::<'a>(s@)
//@ endfn
//@ fn ir/types.rs From<String>~for~Ident from sub:fn~from=>fn~vx_from_string
    ensures r == fixed::<'a>(s@)
//@ endfn
//@ fn ir/types.rs From<Cow<str>>~for~Ident from sub:fn~from=>fn~vx_from_cow sub:Cow<'a,~str>=>Cow<'a>
    ensures r == fixed::<'a>(raw@)
//@ endfn
}
//@ foreach T ast::Ident<'a> &ast::Ident<'a> String Cow<'a>
impl<'a> FromSpecImpl<$T> for Ident<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: $T) -> Self { fixed::<'a>(v@) } }
impl<'a> From<$T> for Ident<'a> { #[verifier::external_body] fn from(v: $T) -> (r: Self) { unimplemented!() } }
//@ endforeach

impl<'a> FromSpecImpl<&'a str> for Ident<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a str) -> Self { fixed::<'a>(v@) } }
impl<'a> From<&'a str> for Ident<'a> { #[verifier::external_body] fn from(v: &'a str) -> (r: Self) { unimplemented!() } }
/// the text of a schema's qualified name in the generated code
pub open spec fn fixall(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.map_values(|x: Seq<char>| fix(x)) }
impl<'a> FromSpecImpl<Vec<Ident<'a>>> for QualifiedIdent<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Vec<Ident<'a>>) -> Self { QualifiedIdent { parts: v } } }
impl<'a> From<Vec<Ident<'a>>> for QualifiedIdent<'a> { fn from(v: Vec<Ident<'a>>) -> (r: Self) { QualifiedIdent { parts: v } } }
impl<'a> FromSpecImpl<ast::QualifiedIdent<'a>> for QualifiedIdent<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: ast::QualifiedIdent<'a>) -> Self; }
impl<'a> From<ast::QualifiedIdent<'a>> for QualifiedIdent<'a> { #[verifier::external_body] fn from(v: ast::QualifiedIdent<'a>) -> (r: Self) ensures r@ == fixall(v@) { unimplemented!() } }
impl<'a> FromSpecImpl<&ast::QualifiedIdent<'a>> for QualifiedIdent<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &ast::QualifiedIdent<'a>) -> Self; }
impl<'a> From<&ast::QualifiedIdent<'a>> for QualifiedIdent<'a> { #[verifier::external_body] fn from(v: &ast::QualifiedIdent<'a>) -> (r: Self) ensures r@ == fixall(v@) { unimplemented!() } }

pub open spec fn base_of(t: ast::Type<'_>) -> Option<EnumBaseType> {
    match t {
        ast::Type::Byte => Some(EnumBaseType::Byte), ast::Type::UByte => Some(EnumBaseType::UByte), ast::Type::Short => Some(EnumBaseType::Short),
        ast::Type::UShort => Some(EnumBaseType::UShort), ast::Type::Int => Some(EnumBaseType::Int), ast::Type::UInt => Some(EnumBaseType::UInt),
        ast::Type::Long => Some(EnumBaseType::Long), ast::Type::ULong => Some(EnumBaseType::ULong), ast::Type::Int8 => Some(EnumBaseType::Int8),
        ast::Type::UInt8 => Some(EnumBaseType::UInt8), ast::Type::Int16 => Some(EnumBaseType::Int16), ast::Type::UInt16 => Some(EnumBaseType::UInt16),
        ast::Type::Int32 => Some(EnumBaseType::Int32), ast::Type::UInt32 => Some(EnumBaseType::UInt32), ast::Type::Int64 => Some(EnumBaseType::Int64),
        ast::Type::UInt64 => Some(EnumBaseType::UInt64), _ => None,
    }
}
impl EnumBaseType {
//@ fn ir/types.rs TryFrom<&ast::Type>~for~EnumBaseType try_from sub:fn~try_from=>fn~vx_try_from<'a> sub:Self::Error=>()
    ensures base_of(*ty) is Some ==> r == Ok::<Self, ()>(base_of(*ty)->0), base_of(*ty) is None ==> r is Err
//@ endfn
}
impl<'a> TryFromSpecImpl<&ast::Type<'a>> for EnumBaseType { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: &ast::Type<'a>) -> Result<Self, ()> { match base_of(*v) { Some(b) => Ok(b), None => Err(()) } } }
impl<'a> TryFrom<&ast::Type<'a>> for EnumBaseType { type Error = (); #[verifier::external_body] fn try_from(ty: &ast::Type<'a>) -> (r: Result<Self, ()>) { unimplemented!() } }

pub open spec fn inline_custom(c: CustomType<'_>) -> bool { c is Struct || c is Enum }
/// stored inline in a table, not behind an offset
pub open spec fn inline(t: Type<'_>) -> bool { match t { Type::String | Type::Array(_) => false, Type::Custom(c) => inline_custom(c.ty), _ => true } }
pub open spec fn union_tag<'a>(t: Type<'a>) -> Option<QualifiedIdent<'a>> { match t { Type::Custom(c) => match c.ty { CustomType::Union { enum_ident, .. } => Some(enum_ident), _ => None }, _ => None } }
pub open spec fn node_ident<'a>(n: Node<'a>) -> QualifiedIdent<'a> {
    match n { Node::Namespace(x) => x.ident, Node::Table(x) => x.ident, Node::Struct(x) => x.ident, Node::Enum(x) => x.ident, Node::Union(x) => x.ident, Node::Rpc(x) => x.ident }
}
impl<'a> Node<'a> {
//@ fn ir/types.rs Node ident
    ensures *r == node_ident(*self)
//@ endfn
//@ fn ir/types.rs Node namespace
    ensures node_ident(*self)@.len() <= 1 ==> r is None, node_ident(*self)@.len() > 1 ==> r is Some && r->0@ == node_ident(*self)@.drop_last()
//@ endfn
}
impl<'a> CustomType<'a> {
//@ fn ir/types.rs CustomType is_scalar
    ensures r == inline_custom(*self)
//@ endfn
}
impl<'a> Type<'a> {
//@ fn ir/types.rs Type is_scalar
    ensures r == inline(*self)
//@ endfn
//@ fn ir/types.rs Type is_union
    ensures r == (self is Custom && self->Custom_0.ty is Union)
//@ endfn
//@ fn ir/types.rs Type is_enum
    ensures r == (self is Custom && self->Custom_0.ty is Enum)
//@ endfn
//@ fn ir/types.rs Type is_array
    ensures r == (self is Array)
//@ endfn
//@ fn ir/types.rs Type is_complex
    ensures r == (self is Array)
//@ endfn
//@ fn ir/types.rs Type make_union_enum_type_companion
    ensures r is Some == union_tag(*self) is Some, r is Some ==> *r->0 == union_tag(*self)->0
//@ endfn
}
pub open spec fn supers(k: int) -> Seq<Seq<char>> { Seq::new(k as nat, |i: int| "super"@) }
/// path, written in module ns, denotes item: k times super, then down from there
pub open spec fn leads_by(ns: Seq<Seq<char>>, path: Seq<Seq<char>>, item: Seq<Seq<char>>, k: int) -> bool {
    0 <= k <= ns.len() && k < path.len() && path.take(k) =~= supers(k) && ns.take(ns.len() - k) + path.skip(k) =~= item
}
pub open spec fn leads(ns: Seq<Seq<char>>, path: Seq<Seq<char>>, item: Seq<Seq<char>>) -> bool { exists|k: int| leads_by(ns, path, item, k) }
pub proof fn lead(ns: Seq<Seq<char>>, p: int, item: Seq<Seq<char>>)
    requires 0 <= p <= ns.len(), p < item.len(), forall|i: int| 0 <= i < p ==> ns[i] == item[i],
    ensures leads(ns, supers(ns.len() - p) + item.skip(p), item),
{
    let path = supers(ns.len() - p) + item.skip(p);
    assert(path.skip(ns.len() - p) =~= item.skip(p));
    assert(ns.take(p) =~= item.take(p));
    assert(leads_by(ns, path, item, ns.len() - p));
}
impl<'a> QualifiedIdent<'a> {
//@ fn ir/types.rs QualifiedIdent len
    ensures r == self@.len()
//@ endfn
//@ fn ir/types.rs QualifiedIdent namespace
    ensures self@.len() <= 1 ==> r is None, self@.len() > 1 ==> r is Some && r->0@ == self@.drop_last()
//@ hint end
//@ endfn
//@ fn ir/types.rs QualifiedIdent relative
    requires self@.len() > 0
    ensures leads(match namespace { Some(ns) => ns@, None => Seq::<Seq<char>>::empty() }, r@, self@)
//@ hint before let\s+parts\s*=
    proof {
        assert forall|i: int| 0 <= i < common_prefix_len implies ns@[i] == self@[i] by {
            assert(ns@.take(common_prefix_len as int)[i] == ns@[i]);
            assert(texts(self.parts@.subrange(0, self.parts@.len() - 1)).take(common_prefix_len as int)[i] == self@[i]);
        }
        lead(ns@, common_prefix_len as int, self@);
    }
//@ hint start
    proof { lead(Seq::<Seq<char>>::empty(), 0, self@); assert(supers(0) + self@.skip(0) =~= self@); }
//@ hint before QualifiedIdent\s*\{\s*parts\s*\}
    proof { assert(texts(parts@) =~= supers(ns@.len() - common_prefix_len) + self@.skip(common_prefix_len as int)); }
//@ endfn
//@ fn ir/types.rs QualifiedIdent simple
    requires self@.len() > 0
    ensures *r == self.parts@.last()
//@ endfn
//@ fn ir/types.rs From<&str>~for~QualifiedIdent from sub:fn~from=>fn~vx_from_str
    ensures r@ =~= seq![fix(s@)]
//@ endfn
//@ fn ir/types.rs From<ast::QualifiedIdent>~for~QualifiedIdent from sub:fn~from=>fn~vx_from_ast
    ensures r@ =~= fixall(ident@)
//@ closure 1
|$1: ast::Ident<'a>| -> (vr: Ident<'a>) ensures vr == fixed::<'a>($1@)
//@ endfn
//@ fn ir/types.rs From<&ast::QualifiedIdent>~for~QualifiedIdent from sub:fn~from=>fn~vx_from_ast_ref
    ensures r@ =~= fixall(ident@)
//@ closure 1
|$1: &ast::Ident<'a>| -> (vr: Ident<'a>) ensures vr == fixed::<'a>($1@)
//@ endfn
}
}
}
pub mod transform {
use vstd::prelude::*;
use crate::vx::*;
use crate::vx::Result;
use crate::ast::types as ast;
use crate::ir::types as ir;
use crate::ir::types::*;
use crate::keywords::*;
use vstd::std_specs::convert::*;
use std::collections::VecDeque;
verus! {
broadcast use {crate::vx::cow_text, crate::vx::cow_is_text, crate::vx::texts_pair, crate::vx::texts_one, crate::vx::cons_tail};
//@ item ir/transform.rs enum CustomTypeStatus
//@ item ir/transform.rs struct Builder pubfields
//@ item ir/transform.rs struct IndexedElement sub:(usize,~ast=>(pub~usize,~pub~ast

pub type Name = Seq<Seq<char>>;
pub type Types<'a> = Map<Name, CustomTypeStatus<'a>>;
pub open spec fn ns_of(b: Builder<'_>) -> Name { match b.current_namespace { Some(n) => fixall(n.ident@), None => Seq::<Seq<char>>::empty() } }
/// what a name written in namespace ns denotes: qualified names are absolute
pub open spec fn denotes(ns: Name, q: Name) -> Name { if q.len() == 1 { ns.push(fix(q[0])) } else { fixall(q) } }
pub open spec fn known<'a>(ts: Types<'a>, n: Name) -> bool { ts.contains_key(n) }
pub open spec fn kind<'a>(s: CustomTypeStatus<'a>) -> ir::CustomType<'a> { match s { CustomTypeStatus::TableDeclared => ir::CustomType::Table, CustomTypeStatus::Defined(t) => t } }
pub open spec fn defined<'a>(ts: Types<'a>, n: Name) -> bool { ts.contains_key(n) && ts[n] is Defined }
/// the schema type t, in namespace ns, is the type r
pub open spec fn means<'a>(ts: Types<'a>, ns: Name, t: ast::Type<'a>, r: ir::Type<'a>) -> bool
    decreases t
{
    match t {
        ast::Type::Bool => r is Bool, ast::Type::Byte => r is Byte, ast::Type::UByte => r is UByte, ast::Type::Short => r is Short, ast::Type::UShort => r is UShort,
        ast::Type::Int => r is Int, ast::Type::UInt => r is UInt, ast::Type::Float => r is Float, ast::Type::Long => r is Long, ast::Type::ULong => r is ULong,
        ast::Type::Double => r is Double, ast::Type::Int8 => r is Int8, ast::Type::UInt8 => r is UInt8, ast::Type::Int16 => r is Int16, ast::Type::UInt16 => r is UInt16,
        ast::Type::Int32 => r is Int32, ast::Type::UInt32 => r is UInt32, ast::Type::Int64 => r is Int64, ast::Type::UInt64 => r is UInt64,
        ast::Type::Float32 => r is Float32, ast::Type::Float64 => r is Float64, ast::Type::String => r is String,
        ast::Type::Array(t) => r is Array && means(ts, ns, *t, *r->Array_0),
        ast::Type::Ident(q) => known(ts, denotes(ns, q@)) && r is Custom && r->Custom_0.ident@ == denotes(ns, q@) && r->Custom_0.ty == kind(ts[denotes(ns, q@)]),
    }
}
pub open spec fn resolves<'a>(ts: Types<'a>, ns: Name, t: ast::Type<'a>) -> bool
    decreases t
{ match t { ast::Type::Array(t) => resolves(ts, ns, *t), ast::Type::Ident(q) => known(ts, denotes(ns, q@)), _ => true } }

/// the namespace in force and the root types are not touched
pub open spec fn kept(a: Builder<'_>, b: Builder<'_>) -> bool { b.current_namespace == a.current_namespace && b.root_types == a.root_types }
pub open spec fn name_of(b: Builder<'_>, id: Seq<char>) -> Name { ns_of(b).push(fix(id)) }
pub open spec fn tag_name(b: Builder<'_>, id: Seq<char>) -> Name { ns_of(b) + seq![fix("butte_gen"@), fix(id + "Type"@)] }
/// exactly one node was added, at pos
pub open spec fn one_node(a: Builder<'_>, b: Builder<'_>, pos: usize) -> bool { b.nodes@ == a.nodes@.insert(pos, b.nodes@[pos]) && b.nodes@[pos]@.len() == 1 }
/// exactly one type was defined, n
pub open spec fn one_type(a: Builder<'_>, b: Builder<'_>, n: Name) -> bool { b.types@ =~= a.types@.insert(n, b.types@[n]) && b.types@[n] is Defined && !defined(a.types@, n) }
pub open spec fn variant(a: ast::EnumVariant<'_>, r: ir::EnumVariant<'_>) -> bool { r.ident@ == fix(a.id@) && r.value == a.value && r.doc == a.doc }
pub open spec fn variants(a: Seq<ast::EnumVariant<'_>>, r: Seq<ir::EnumVariant<'_>>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> variant(#[trigger] a[i], r[i]) }
pub open spec fn enum_node(n: Name, e: ast::Enum<'_>, r: ir::Enum<'_>) -> bool { r.ident@ == n && Some(r.base_type) == base_of(e.base_type) && variants(e.variants@, r.variants@) && r.doc == e.doc }
pub open spec fn enum_type(t: ir::CustomType<'_>, r: ir::Enum<'_>) -> bool { t is Enum && t->base_type == r.base_type && t->Enum_variants@ == r.variants@ }
/// the type tag of a union: a ubyte enum, None = 0 and then the variants
pub open spec fn tag_enum(n: Name, u: ast::Union<'_>, r: ir::Enum<'_>) -> bool {
    r.ident@ == n && r.base_type is UByte && r.variants@.len() == u.variants@.len() + 1 && r.variants@[0].ident@ == fix("None"@) && r.variants@[0].value == Some(0i128)
    && variants(u.variants@, r.variants@.skip(1)) && r.doc == u.doc
}
/// the tag of every union is defined
pub open spec fn wf(ts: Types<'_>) -> bool {
    forall|n: Name| #[trigger] ts.contains_key(n) && ts[n] is Defined && ts[n]->Defined_0 is Union ==> defined(ts, ts[n]->Defined_0->enum_ident@)
}
pub open spec fn in_force(a: Builder<'_>, b: Builder<'_>, n: ast::Namespace<'_>) -> bool { b.current_namespace == Some(n) && b.types == a.types && b.nodes == a.nodes && b.root_types == a.root_types }
pub open spec fn untouched(a: Builder<'_>, b: Builder<'_>) -> bool { kept(a, b) && b.types@ == a.types@ && b.nodes@ == a.nodes@ }
pub open spec fn post_enum<'a>(a: Builder<'a>, b: Builder<'a>, e: ast::Enum<'a>, pos: usize, r: Result<bool>) -> bool {
    let n = name_of(a, e.id@);
    &&& kept(a, b)
    &&& r is Err == (defined(a.types@, n) || base_of(e.base_type) is None)
    &&& r is Err ==> untouched(a, b)
    &&& r is Ok ==> r->Ok_0 && one_node(a, b, pos) && b.nodes@[pos]@[0] is Enum && enum_node(n, e, b.nodes@[pos]@[0]->Enum_0)
            && one_type(a, b, n) && enum_type(kind(b.types@[n]), b.nodes@[pos]@[0]->Enum_0)
    &&& wf(a.types@) ==> wf(b.types@)
}
// tables (G01, G03, G04)
pub open spec fn is_required(f: ast::Field<'_>) -> bool { f.metadata is Some && f.metadata->0.values@.contains_key("required"@) && f.metadata->0.values@["required"@] is None }
pub open spec fn default_of<'a>(f: ast::Field<'a>) -> Option<ast::DefaultValue<'a>> { match f.default_value { Some(d) => Some(d), None => ast::implicit(f.ty) } }
pub open spec fn field_main<'a>(ts: Types<'a>, ns: Name, f: ast::Field<'a>, r: ir::Field<'a>) -> bool {
    r.ident@ == fix(f.id@) && means(ts, ns, f.ty, r.ty) && r.default_value == default_of(f) && r.metadata.required == is_required(f) && r.doc == f.doc
}
/// the field that holds the tag of the union field f
pub open spec fn field_tag<'a>(ts: Types<'a>, f: ast::Field<'a>, tag: Name, r: ir::Field<'a>) -> bool {
    r.ident@ == fix(snake(fix(f.id@)) + "_type"@) && r.ty is Custom && r.ty->Custom_0.ident@ == tag && r.ty->Custom_0.ty == kind(ts[tag])
    && r.default_value is None && r.metadata.required == is_required(f) && r.doc == f.doc
}
pub open spec fn tag_of<'a>(ts: Types<'a>, ns: Name, t: ast::Type<'a>) -> Option<Name> {
    match t { ast::Type::Ident(q) => match kind(ts[denotes(ns, q@)]) { ir::CustomType::Union { enum_ident, .. } => Some(enum_ident@), _ => None }, _ => None }
}
/// the slots of a table: its fields in the order of the schema, a union taking two, its tag first
pub open spec fn laid<'a>(ts: Types<'a>, ns: Name, fs: Seq<ast::Field<'a>>, rs: Seq<ir::Field<'a>>) -> bool
    decreases fs.len()
{
    if fs.len() == 0 { rs.len() == 0 } else {
        let f = fs.last();
        match tag_of(ts, ns, f.ty) {
            None => rs.len() >= 1 && field_main(ts, ns, f, rs.last()) && laid(ts, ns, fs.drop_last(), rs.take(rs.len() - 1)),
            Some(tag) => rs.len() >= 2 && field_tag(ts, f, tag, rs[rs.len() - 2]) && field_main(ts, ns, f, rs.last()) && laid(ts, ns, fs.drop_last(), rs.take(rs.len() - 2)),
        }
    }
}
pub proof fn laid_step<'a>(ts: Types<'a>, ns: Name, fs: Seq<ast::Field<'a>>, k: int, rs: Seq<ir::Field<'a>>)
    requires 0 <= k < fs.len(), laid(ts, ns, fs.take(k), rs)
    ensures
        tag_of(ts, ns, fs[k].ty) is None ==> forall|m: ir::Field<'a>| #![trigger rs.push(m)] field_main(ts, ns, fs[k], m) ==> laid(ts, ns, fs.take(k + 1), rs.push(m)),
        tag_of(ts, ns, fs[k].ty) is Some ==> forall|g: ir::Field<'a>, m: ir::Field<'a>| #![trigger rs.push(g).push(m)] field_tag(ts, fs[k], tag_of(ts, ns, fs[k].ty)->0, g) && field_main(ts, ns, fs[k], m) ==> laid(ts, ns, fs.take(k + 1), rs.push(g).push(m)),
{
    assert(fs.take(k + 1).last() == fs[k]);
    assert(fs.take(k + 1).drop_last() =~= fs.take(k));
    assert forall|m: ir::Field<'a>| #[trigger] field_main(ts, ns, fs[k], m) && tag_of(ts, ns, fs[k].ty) is None implies laid(ts, ns, fs.take(k + 1), rs.push(m)) by {
        assert(rs.push(m).take(rs.push(m).len() - 1) =~= rs);
    }
    assert forall|g: ir::Field<'a>, m: ir::Field<'a>| tag_of(ts, ns, fs[k].ty) is Some && #[trigger] field_tag(ts, fs[k], tag_of(ts, ns, fs[k].ty)->0, g) && #[trigger] field_main(ts, ns, fs[k], m) implies laid(ts, ns, fs.take(k + 1), rs.push(g).push(m)) by {
        assert(rs.push(g).push(m).take(rs.push(g).push(m).len() - 2) =~= rs);
    }
}
pub open spec fn post_table<'a>(a: Builder<'a>, b: Builder<'a>, t: ast::Table<'a>, pos: usize, r: Result<bool>) -> bool {
    let n = name_of(a, t.id@);
    let ts = a.types@.insert(n, CustomTypeStatus::TableDeclared);
    let all = forall|i: int| 0 <= i < t.fields@.len() ==> resolves(ts, ns_of(a), (#[trigger] t.fields@[i]).ty);
    &&& kept(a, b)
    &&& r is Err == defined(a.types@, n)
    &&& r is Err ==> untouched(a, b)
    // some field is of a type not seen so far: try again later
    &&& r is Ok ==> r->Ok_0 == all
    &&& r is Ok && !r->Ok_0 ==> b.types@ == ts && b.nodes@ == a.nodes@
    &&& r is Ok && r->Ok_0 ==> one_type(a, b, n) && kind(b.types@[n]) is Table && one_node(a, b, pos) && b.nodes@[pos]@[0] is Table && {
            let x = b.nodes@[pos]@[0]->Table_0;
            x.ident@ == n && laid(ts, ns_of(a), t.fields@, x.fields@) && !x.root_type && x.doc == t.doc
        }
    &&& wf(a.types@) ==> wf(b.types@)
}
pub open spec fn struct_field<'a>(ts: Types<'a>, ns: Name, f: ast::Field<'a>, r: ir::Field<'a>) -> bool {
    r.ident@ == fix(f.id@) && means(ts, ns, f.ty, r.ty) && inline(r.ty) && r.default_value == f.default_value && r.doc == f.doc
}
/// a type that no struct may contain
pub open spec fn outline<'a>(ts: Types<'a>, ns: Name, t: ast::Type<'a>) -> bool {
    match t { ast::Type::String | ast::Type::Array(_) => true, ast::Type::Ident(q) => known(ts, denotes(ns, q@)) && !inline_custom(kind(ts[denotes(ns, q@)])), _ => false }
}
pub open spec fn post_struct<'a>(a: Builder<'a>, b: Builder<'a>, t: ast::Struct<'a>, pos: usize, r: Result<bool>) -> bool {
    let n = name_of(a, t.id@);
    &&& kept(a, b)
    &&& defined(a.types@, n) ==> r is Err
    &&& r is Err ==> defined(a.types@, n) || exists|i: int| 0 <= i < t.fields@.len() && outline(a.types@, ns_of(a), (#[trigger] t.fields@[i]).ty)
    &&& r is Err || !r->Ok_0 ==> untouched(a, b)
    &&& r is Ok && !r->Ok_0 ==> exists|i: int| 0 <= i < t.fields@.len() && !resolves(a.types@, ns_of(a), (#[trigger] t.fields@[i]).ty)
    &&& r is Ok && r->Ok_0 ==> one_type(a, b, n) && kind(b.types@[n]) is Struct && one_node(a, b, pos) && b.nodes@[pos]@[0] is Struct && {
            let x = b.nodes@[pos]@[0]->Struct_0;
            x.ident@ == n && x.doc == t.doc && x.fields@.len() == t.fields@.len() && forall|i: int| 0 <= i < t.fields@.len() ==> struct_field(a.types@, ns_of(a), t.fields@[i], #[trigger] x.fields@[i])
        }
    &&& wf(a.types@) ==> wf(b.types@)
}
// unions (G02)
pub open spec fn variant_resolves<'a>(ts: Types<'a>, ns: Name, v: ast::EnumVariant<'a>) -> bool { known(ts, denotes(ns, seq![v.id@])) }
pub open spec fn union_variant<'a>(ts: Types<'a>, ns: Name, v: ast::EnumVariant<'a>, r: ir::UnionVariant<'a>) -> bool {
    let n = denotes(ns, seq![v.id@]);
    r.ident@ == fix(v.id@) && r.ty is Custom && r.ty->Custom_0.ident@ == n && r.ty->Custom_0.ty == kind(ts[n]) && r.doc == v.doc
}
pub open spec fn post_union<'a>(a: Builder<'a>, b: Builder<'a>, u: ast::Union<'a>, pos: usize, r: Result<bool>) -> bool {
    let n = name_of(a, u.id@);
    let tag = tag_name(a, u.id@);
    let all = forall|i: int| 0 <= i < u.variants@.len() ==> variant_resolves(a.types@, ns_of(a), #[trigger] u.variants@[i]);
    &&& kept(a, b)
    &&& r is Err == (defined(a.types@, n) || all && defined(a.types@, tag))
    &&& r is Ok ==> r->Ok_0 == all
    &&& r is Err || !r->Ok_0 ==> untouched(a, b)
    &&& r is Ok && r->Ok_0 ==> b.types@ =~= a.types@.insert(tag, b.types@[tag]).insert(n, b.types@[n]) && defined(b.types@, n) && defined(b.types@, tag)
            && b.nodes@ == a.nodes@.insert(pos, b.nodes@[pos]) && b.nodes@[pos]@.len() == 2 && b.nodes@[pos]@[0] is Enum && b.nodes@[pos]@[1] is Union && {
            let e = b.nodes@[pos]@[0]->Enum_0;
            let x = b.nodes@[pos]@[1]->Union_0;
            tag_enum(tag, u, e) && enum_type(kind(b.types@[tag]), e)
            && x.ident@ == n && x.enum_ident@ == tag && x.doc == u.doc && x.variants@.len() == u.variants@.len()
            && (forall|i: int| 0 <= i < u.variants@.len() ==> union_variant(a.types@, ns_of(a), u.variants@[i], #[trigger] x.variants@[i]))
            && kind(b.types@[n]) is Union && kind(b.types@[n])->enum_ident@ == tag && kind(b.types@[n])->Union_variants@ == x.variants@
        }
    &&& wf(a.types@) ==> wf(b.types@)
}
// roots and services
pub open spec fn is_table<'a>(ts: Types<'a>, n: Name) -> bool { defined(ts, n) && kind(ts[n]) is Table }
pub open spec fn post_root<'a>(a: Builder<'a>, b: Builder<'a>, n: Name, r: Result<bool>) -> bool {
    &&& b.current_namespace == a.current_namespace && b.types == a.types && b.nodes == a.nodes
    &&& r is Err == (defined(a.types@, n) && !(kind(a.types@[n]) is Table))
    &&& r is Ok ==> r->Ok_0 == is_table(a.types@, n)
    &&& b.root_types@ == if is_table(a.types@, n) { a.root_types@.insert(n) } else { a.root_types@ }
}
pub open spec fn tables<'a>(ts: Types<'a>, ns: Name, m: ast::RpcMethod<'a>) -> bool { is_table(ts, denotes(ns, m.request_type@)) && is_table(ts, denotes(ns, m.response_type@)) }
pub open spec fn not_table<'a>(ts: Types<'a>, n: Name) -> bool { defined(ts, n) && !(kind(ts[n]) is Table) }
pub open spec fn stream_of(m: ast::RpcMethod<'_>) -> Option<ir::RpcStreaming> {
    if m.metadata is None || !m.metadata->0.values@.contains_key("streaming"@) { Some(ir::RpcStreaming::None) } else {
        match m.metadata->0.values@["streaming"@] {
            Some(ast::Single::String(s)) => if s@ == "client"@ { Some(ir::RpcStreaming::Client) } else if s@ == "server"@ { Some(ir::RpcStreaming::Server) } else if s@ == "bidi"@ { Some(ir::RpcStreaming::Bidi) } else { None },
            _ => None,
        }
    }
}
pub proof fn stream_literals() ensures forall|s: &str| #![trigger s@] (s@ == "client"@ ==> s == "client") && (s@ == "server"@ ==> s == "server") && (s@ == "bidi"@ ==> s == "bidi"),
    "client"@ != "server"@, "client"@ != "bidi"@, "server"@ != "bidi"@
{
    reveal_strlit("client"); reveal_strlit("server"); reveal_strlit("bidi");
    assert("client"@[0] != "server"@[0]); assert("client"@[0] != "bidi"@[0]); assert("server"@[0] != "bidi"@[0]);
    assert forall|s: &str| #![trigger s@] (s@ == "client"@ ==> s == "client") && (s@ == "server"@ ==> s == "server") && (s@ == "bidi"@ ==> s == "bidi") by { str_ext(s, "client"); str_ext(s, "server"); str_ext(s, "bidi"); }
}
pub open spec fn method<'a>(ns: Name, m: ast::RpcMethod<'a>, r: ir::RpcMethod<'a>) -> bool {
    r.ident@ == fix(m.id@) && r.snake_ident@ == fix(snake(m.id@)) && r.request_type@ == denotes(ns, m.request_type@) && r.response_type@ == denotes(ns, m.response_type@)
    && Some(r.metadata.streaming) == stream_of(m) && r.doc == m.doc
}
pub open spec fn post_rpc<'a>(a: Builder<'a>, b: Builder<'a>, s: ast::Rpc<'a>, pos: usize, r: Result<bool>) -> bool {
    &&& b.current_namespace == a.current_namespace && b.types@ == a.types@
    &&& r is Err || !r->Ok_0 ==> b.nodes@ == a.nodes@
    &&& r is Err ==> exists|i: int| 0 <= i < s.methods@.len() && (not_table(a.types@, denotes(ns_of(a), (#[trigger] s.methods@[i]).request_type@)) || not_table(a.types@, denotes(ns_of(a), s.methods@[i].response_type@)) || stream_of(s.methods@[i]) is None)
    &&& r is Ok && !r->Ok_0 ==> exists|i: int| 0 <= i < s.methods@.len() && !tables(a.types@, ns_of(a), #[trigger] s.methods@[i])
    &&& r is Ok && r->Ok_0 ==> one_node(a, b, pos) && b.nodes@[pos]@[0] is Rpc && {
            let x = b.nodes@[pos]@[0]->Rpc_0;
            x.ident@ == name_of(a, s.id@) && x.doc == s.doc && x.methods@.len() == s.methods@.len()
            && forall|i: int| 0 <= i < s.methods@.len() ==> tables(a.types@, ns_of(a), s.methods@[i]) && method(ns_of(a), s.methods@[i], #[trigger] x.methods@[i])
        }
}

// ---- the whole schema, in whatever order it is written (G04)
pub type Elements<'a> = Seq<ast::Element<'a>>;
pub type Nodes<'a> = Map<usize, Vec<ir::Node<'a>>>;
pub type Queue<'a> = Seq<(Option<Option<ast::Namespace<'a>>>, IndexedElement<'a>)>;
pub open spec fn ns_name(n: Option<ast::Namespace<'_>>) -> Name { match n { Some(n) => fixall(n.ident@), None => Seq::<Seq<char>>::empty() } }
/// the namespace in force where element i is declared: that of the last namespace declaration before it
pub open spec fn ns_at(es: Elements<'_>, i: int) -> Name
    decreases i
{ if i <= 0 { Seq::<Seq<char>>::empty() } else { match es[i - 1] { ast::Element::Namespace(n) => fixall(n.ident@), _ => ns_at(es, i - 1) } } }
/// n is a name that the declaration e, in namespace ns, defines
pub open spec fn owns(ns: Name, e: ast::Element<'_>, n: Name) -> bool {
    match e {
        ast::Element::Table(t) => n == ns.push(fix(t.id@)),
        ast::Element::Struct(t) => n == ns.push(fix(t.id@)),
        ast::Element::Enum(t) => n == ns.push(fix(t.id@)),
        ast::Element::Union(t) => n == ns.push(fix(t.id@)) || n == tag_in(ns, t.id@),
        _ => false,
    }
}
pub open spec fn all_owned(ns: Name, e: ast::Element<'_>, ts: Types<'_>) -> bool { forall|n: Name| #[trigger] owns(ns, e, n) ==> defined(ts, n) }
pub open spec fn tag_in(ns: Name, id: Seq<char>) -> Name { ns + seq![fix("butte_gen"@), fix(id + "Type"@)] }
pub open spec fn made_table<'a>(ts: Types<'a>, ns: Name, t: ast::Table<'a>, x: ir::Table<'a>) -> bool {
    is_table(ts, ns.push(fix(t.id@))) && x.ident@ == ns.push(fix(t.id@)) && laid(ts, ns, t.fields@, x.fields@) && !x.root_type && x.doc == t.doc
}
pub open spec fn made_struct<'a>(ts: Types<'a>, ns: Name, t: ast::Struct<'a>, x: ir::Struct<'a>) -> bool {
    let n = ns.push(fix(t.id@));
    defined(ts, n) && kind(ts[n]) is Struct && x.ident@ == n && x.doc == t.doc && x.fields@.len() == t.fields@.len()
    && forall|j: int| 0 <= j < t.fields@.len() ==> struct_field(ts, ns, t.fields@[j], #[trigger] x.fields@[j])
}
pub open spec fn made_enum<'a>(ts: Types<'a>, ns: Name, t: ast::Enum<'a>, x: ir::Enum<'a>) -> bool {
    let n = ns.push(fix(t.id@));
    defined(ts, n) && enum_node(n, t, x) && enum_type(kind(ts[n]), x)
}
pub open spec fn made_union<'a>(ts: Types<'a>, ns: Name, u: ast::Union<'a>, e: ir::Enum<'a>, x: ir::Union<'a>) -> bool {
    let n = ns.push(fix(u.id@));
    let tag = tag_in(ns, u.id@);
    defined(ts, n) && defined(ts, tag) && tag_enum(tag, u, e) && enum_type(kind(ts[tag]), e)
    && x.ident@ == n && x.enum_ident@ == tag && x.doc == u.doc && x.variants@.len() == u.variants@.len()
    && (forall|j: int| 0 <= j < u.variants@.len() ==> variant_resolves(ts, ns, #[trigger] u.variants@[j]) && union_variant(ts, ns, u.variants@[j], x.variants@[j]))
    && kind(ts[n]) is Union && kind(ts[n])->enum_ident@ == tag && kind(ts[n])->Union_variants@ == x.variants@
}
pub open spec fn made_rpc<'a>(ts: Types<'a>, ns: Name, s: ast::Rpc<'a>, x: ir::Rpc<'a>) -> bool {
    x.ident@ == ns.push(fix(s.id@)) && x.doc == s.doc && x.methods@.len() == s.methods@.len()
    && forall|j: int| 0 <= j < s.methods@.len() ==> tables(ts, ns, #[trigger] s.methods@[j]) && method(ns, s.methods@[j], x.methods@[j])
}
/// what the declaration e, in namespace ns, comes to when the types of the schema are ts: its nodes
pub open spec fn made<'a>(ts: Types<'a>, ns: Name, e: ast::Element<'a>, m: Option<Vec<ir::Node<'a>>>) -> bool {
    match e {
        ast::Element::Namespace(_) => m is None,
        ast::Element::Root(t) => m is None && is_table(ts, ns.push(fix(t.typename@))),
        ast::Element::Table(t) => m is Some && m->0@.len() == 1 && m->0@[0] is Table && made_table(ts, ns, t, m->0@[0]->Table_0),
        ast::Element::Struct(t) => m is Some && m->0@.len() == 1 && m->0@[0] is Struct && made_struct(ts, ns, t, m->0@[0]->Struct_0),
        ast::Element::Enum(t) => m is Some && m->0@.len() == 1 && m->0@[0] is Enum && made_enum(ts, ns, t, m->0@[0]->Enum_0),
        ast::Element::Union(t) => m is Some && m->0@.len() == 2 && m->0@[0] is Enum && m->0@[1] is Union && made_union(ts, ns, t, m->0@[0]->Enum_0, m->0@[1]->Union_0),
        ast::Element::Rpc(t) => m is Some && m->0@.len() == 1 && m->0@[0] is Rpc && made_rpc(ts, ns, t, m->0@[0]->Rpc_0),
        _ => false,
    }
}
pub open spec fn at<'a>(nodes: Nodes<'a>, i: int) -> Option<Vec<ir::Node<'a>>> { if nodes.contains_key(i as usize) { Some(nodes[i as usize]) } else { None } }
/// b has every type of a, of the same kind
pub open spec fn grows<'a>(a: Types<'a>, b: Types<'a>) -> bool {
    forall|n: Name| #[trigger] a.contains_key(n) ==> b.contains_key(n) && kind(b[n]) == kind(a[n]) && (a[n] is Defined ==> b[n] is Defined)
}
pub proof fn means_grows<'a>(a: Types<'a>, b: Types<'a>, ns: Name, t: ast::Type<'a>, r: ir::Type<'a>)
    requires grows(a, b), means(a, ns, t, r) ensures means(b, ns, t, r)
    decreases t
{ match t { ast::Type::Array(t) => { means_grows(a, b, ns, *t, *r->Array_0); } ast::Type::Ident(q) => { assert(a.contains_key(denotes(ns, q@))); } _ => {} } }
pub proof fn laid_grows<'a>(a: Types<'a>, b: Types<'a>, ns: Name, fs: Seq<ast::Field<'a>>, rs: Seq<ir::Field<'a>>)
    requires grows(a, b), wf(a), laid(a, ns, fs, rs) ensures laid(b, ns, fs, rs)
    decreases fs.len()
{
    if fs.len() > 0 {
        let f = fs.last();
        means_grows(a, b, ns, f.ty, rs.last().ty);
        match f.ty { ast::Type::Ident(q) => { assert(a.contains_key(denotes(ns, q@))); } _ => {} }
        match tag_of(a, ns, f.ty) {
            None => { laid_grows(a, b, ns, fs.drop_last(), rs.take(rs.len() - 1)); }
            Some(tag) => { assert(a.contains_key(tag)); laid_grows(a, b, ns, fs.drop_last(), rs.take(rs.len() - 2)); }
        }
    }
}
pub proof fn made_grows<'a>(a: Types<'a>, b: Types<'a>, ns: Name, e: ast::Element<'a>, m: Option<Vec<ir::Node<'a>>>)
    requires grows(a, b), wf(a), made(a, ns, e, m) ensures made(b, ns, e, m)
{
    match e {
        ast::Element::Table(t) => { laid_grows(a, b, ns, t.fields@, m->0@[0]->Table_0.fields@); }
        ast::Element::Struct(t) => {
            let x = m->0@[0]->Struct_0;
            assert forall|j: int| 0 <= j < t.fields@.len() implies struct_field(b, ns, t.fields@[j], #[trigger] x.fields@[j]) by { means_grows(a, b, ns, t.fields@[j].ty, x.fields@[j].ty); }
        }
        ast::Element::Rpc(s) => {
            let x = m->0@[0]->Rpc_0;
            assert forall|j: int| 0 <= j < s.methods@.len() implies tables(b, ns, #[trigger] s.methods@[j]) && method(ns, s.methods@[j], x.methods@[j]) by { assert(tables(a, ns, s.methods@[j])); }
            assert(made_rpc(b, ns, s, x));
        }
        ast::Element::Union(u) => {
            let x = m->0@[1]->Union_0;
            assert forall|j: int| 0 <= j < u.variants@.len() implies variant_resolves(b, ns, #[trigger] u.variants@[j]) && union_variant(b, ns, u.variants@[j], x.variants@[j]) by { assert(union_variant(a, ns, u.variants@[j], x.variants@[j])); }
            assert(made_union(b, ns, u, m->0@[0]->Enum_0, x));
        }
        ast::Element::Enum(t) => { assert(made_enum(b, ns, t, m->0@[0]->Enum_0)); }
        _ => {}
    }
}
/// a table's name was taken by something else
pub open spec fn clash<'a>(es: Elements<'a>, ts: Types<'a>) -> bool {
    exists|i: int| 0 <= i < es.len() && #[trigger] es[i] is Table && { let n = ns_at(es, i).push(fix(es[i]->Table_0.id@)); defined(ts, n) && !(kind(ts[n]) is Table) }
}
/// the declaration e waits for a name that ts does not have (services and roots: for a table)
pub open spec fn refused<'a>(ts: Types<'a>, ns: Name, e: ast::Element<'a>) -> bool {
    match e {
        ast::Element::Table(t) => exists|j: int| 0 <= j < t.fields@.len() && !resolves(ts, ns, (#[trigger] t.fields@[j]).ty),
        ast::Element::Struct(t) => exists|j: int| 0 <= j < t.fields@.len() && !resolves(ts, ns, (#[trigger] t.fields@[j]).ty),
        ast::Element::Union(t) => exists|j: int| 0 <= j < t.variants@.len() && !variant_resolves(ts, ns, #[trigger] t.variants@[j]),
        ast::Element::Rpc(t) => exists|j: int| 0 <= j < t.methods@.len() && !tables(ts, ns, #[trigger] t.methods@[j]),
        ast::Element::Root(t) => !is_table(ts, ns.push(fix(t.typename@))),
        _ => false,
    }
}
/// the declaration e can never be right
pub open spec fn bad<'a>(ts: Types<'a>, ns: Name, e: ast::Element<'a>) -> bool {
    match e {
        ast::Element::Enum(t) => base_of(t.base_type) is None,
        ast::Element::Struct(t) => exists|j: int| 0 <= j < t.fields@.len() && outline(ts, ns, (#[trigger] t.fields@[j]).ty),
        ast::Element::Rpc(t) => exists|j: int| 0 <= j < t.methods@.len() && (not_table(ts, denotes(ns, (#[trigger] t.methods@[j]).request_type@)) || not_table(ts, denotes(ns, t.methods@[j].response_type@)) || stream_of(t.methods@[j]) is None),
        ast::Element::Root(t) => not_table(ts, ns.push(fix(t.typename@))),
        _ => false,
    }
}
/// some declarations wait for names that neither they (tables) nor the others define
pub open spec fn stuck<'a>(es: Elements<'a>, ts: Types<'a>, w: ISet<int>) -> bool {
    &&& exists|i: int| w.contains(i)
    &&& forall|i: int| #[trigger] w.contains(i) ==> 0 <= i < es.len() && refused(ts, ns_at(es, i), es[i]) && (es[i] is Table ==> known(ts, ns_at(es, i).push(fix(es[i]->Table_0.id@))))
}
pub open spec fn double(es: Elements<'_>) -> bool { exists|i: int, j: int, n: Name| i != j && #[trigger] declares(es, i, n) && #[trigger] declares(es, j, n) }
pub open spec fn at_fault<'a>(es: Elements<'a>, b: Builder<'a>, w: ISet<int>) -> bool { state(es, b, w) && (stuck(es, b.types@, w) || exists|i: int| 0 <= i < es.len() && bad(b.types@, ns_at(es, i), #[trigger] es[i])) }
/// why a schema is rejected: a name is defined twice, a declaration is wrong in itself, or names are missing
#[verifier::opaque]
pub open spec fn faulty(es: Elements<'_>) -> bool { double(es) || exists|b: Builder<'_>, w: ISet<int>| #[trigger] at_fault(es, b, w) }
pub open spec fn declares(es: Elements<'_>, i: int, n: Name) -> bool { 0 <= i < es.len() && owns(ns_at(es, i), es[i], n) }
/// the builder after some of the elements, those in w still to come
#[verifier::opaque]
pub open spec fn state<'a>(es: Elements<'a>, b: Builder<'a>, w: ISet<int>) -> bool {
    let ts = b.types@;
    &&& wf(ts)
    &&& forall|n: Name| #[trigger] ts.contains_key(n) ==> exists|i: int| #[trigger] declares(es, i, n) && (ts[n] is TableDeclared ==> es[i] is Table) && (ts[n] is Defined ==> !w.contains(i))
    &&& forall|i: int| 0 <= i < es.len() && !w.contains(i) ==> all_owned(ns_at(es, i), #[trigger] es[i], ts)
    &&& forall|i: int| 0 <= i < es.len() && !w.contains(i) && #[trigger] es[i] is Table ==> kind(ts[ns_at(es, i).push(fix(es[i]->Table_0.id@))]) is Table
    &&& forall|i: int, j: int, n: Name| #[trigger] declares(es, i, n) && #[trigger] declares(es, j, n) && !w.contains(i) && !w.contains(j) ==> i == j
    &&& forall|k: usize| #[trigger] b.nodes@.contains_key(k) ==> k < es.len() && !w.contains(k as int)
    &&& clash(es, ts) || forall|i: int| 0 <= i < es.len() && !w.contains(i) ==> made(ts, ns_at(es, i), #[trigger] es[i], at(b.nodes@, i))
}
/// one element was handled, or put off
#[verifier::opaque]
pub open spec fn handled<'a>(a: Builder<'a>, b: Builder<'a>, e: ast::Element<'a>, pos: usize, r: Result<bool>) -> bool {
    match e {
        ast::Element::Namespace(n) => r == Ok::<bool, Error>(true) && in_force(a, b, n),
        ast::Element::Table(t) => post_table(a, b, t, pos, r),
        ast::Element::Struct(t) => post_struct(a, b, t, pos, r),
        ast::Element::Enum(e) => post_enum(a, b, e, pos, r),
        ast::Element::Union(u) => post_union(a, b, u, pos, r),
        ast::Element::Rpc(s) => post_rpc(a, b, s, pos, r),
        ast::Element::Root(t) => post_root(a, b, name_of(a, t.typename@), r),
        _ => false,
    }
}
pub open spec fn keeps<'a>(a: Types<'a>, b: Types<'a>) -> bool { forall|n: Name| #[trigger] a.contains_key(n) ==> b.contains_key(n) && (a[n] is Defined ==> b[n] == a[n]) }
pub proof fn handled_keeps<'a>(a: Builder<'a>, b: Builder<'a>, e: ast::Element<'a>, pos: usize, r: Result<bool>)
    requires handled(a, b, e, pos, r), r is Ok
    ensures keeps(a.types@, b.types@),
        forall|k: usize| k != pos ==> (#[trigger] b.nodes@.contains_key(k)) == a.nodes@.contains_key(k) && (a.nodes@.contains_key(k) ==> b.nodes@[k] == a.nodes@[k]),
        forall|n: Name| #[trigger] b.types@.contains_key(n) ==> b.types@[n] == a.types@[n] && a.types@.contains_key(n) || owns(ns_of(a), e, n) && !defined(a.types@, n) && (b.types@[n] is TableDeclared ==> e is Table),
        r->Ok_0 ==> all_owned(ns_of(a), e, b.types@) && forall|n: Name| #[trigger] owns(ns_of(a), e, n) ==> !defined(a.types@, n),
        r->Ok_0 && e is Table ==> is_table(b.types@, name_of(a, e->Table_0.id@)),
        !r->Ok_0 ==> b.nodes@ == a.nodes@ && forall|n: Name| #[trigger] b.types@.contains_key(n) && b.types@[n] is Defined ==> a.types@.contains_key(n) && b.types@[n] == a.types@[n],
        forall|k: usize| #[trigger] a.nodes@.contains_key(k) ==> b.nodes@.contains_key(k),
        e is Namespace ==> r->Ok_0 && ns_of(b) == fixall(e->Namespace_0.ident@), !(e is Namespace) ==> b.current_namespace == a.current_namespace,
{
    reveal(handled);
}
pub proof fn handled_made<'a>(a: Builder<'a>, b: Builder<'a>, e: ast::Element<'a>, pos: usize, r: Result<bool>)
    requires handled(a, b, e, pos, r), r is Ok, r->Ok_0, wf(a.types@), grows(a.types@, b.types@), !a.nodes@.contains_key(pos)
    ensures made(b.types@, ns_of(a), e, at(b.nodes@, pos as int))
{
    reveal(handled); handled_keeps(a, b, e, pos, r);
    let m = b.nodes@[pos]@;
    match e {
        ast::Element::Table(t) => {
            let n = name_of(a, t.id@); let ts = a.types@.insert(n, CustomTypeStatus::TableDeclared);
            assert(grows(ts, b.types@));
            laid_grows(ts, b.types@, ns_of(a), t.fields@, m[0]->Table_0.fields@);
            assert(made_table(b.types@, ns_of(a), t, m[0]->Table_0));
        }
        ast::Element::Struct(t) => {
            let x = m[0]->Struct_0;
            assert forall|j: int| 0 <= j < t.fields@.len() implies struct_field(b.types@, ns_of(a), t.fields@[j], #[trigger] x.fields@[j]) by { means_grows(a.types@, b.types@, ns_of(a), t.fields@[j].ty, x.fields@[j].ty); }
            assert(made_struct(b.types@, ns_of(a), t, x));
        }
        ast::Element::Union(u) => {
            let x = m[1]->Union_0;
            assert forall|j: int| 0 <= j < u.variants@.len() implies variant_resolves(b.types@, ns_of(a), #[trigger] u.variants@[j]) && union_variant(b.types@, ns_of(a), u.variants@[j], x.variants@[j]) by {
                assert(variant_resolves(a.types@, ns_of(a), u.variants@[j])); assert(union_variant(a.types@, ns_of(a), u.variants@[j], x.variants@[j]));
            }
            assert(made_union(b.types@, ns_of(a), u, m[0]->Enum_0, x));
        }
        ast::Element::Enum(t) => { assert(made_enum(b.types@, ns_of(a), t, m[0]->Enum_0)); }
        ast::Element::Rpc(s) => {
            let x = m[0]->Rpc_0; let ns = ns_of(a);
            assert forall|j: int| 0 <= j < s.methods@.len() implies tables(b.types@, ns, #[trigger] s.methods@[j]) && method(ns, s.methods@[j], x.methods@[j]) by {
                let y = x.methods@[j]; assert(tables(a.types@, ns, s.methods@[j]));
            }
            assert(made_rpc(b.types@, ns, s, x));
        }
        _ => {}
    }
}
pub proof fn stepped<'a>(es: Elements<'a>, a: Builder<'a>, b: Builder<'a>, i: int, r: Result<bool>, w: ISet<int>, v: ISet<int>)
    requires state(es, a, w), 0 <= i < es.len() <= usize::MAX, handled(a, b, es[i], i as usize, r), r is Ok, ns_of(a) == ns_at(es, i), wf(b.types@),
        w.contains(i), r->Ok_0 == !v.contains(i), forall|j: int| j != i ==> (#[trigger] v.contains(j)) == w.contains(j)
    ensures state(es, b, v)
{
    reveal(state); handled_keeps(a, b, es[i], i as usize, r);
    let ns = ns_of(a); let e = es[i];
    assert forall|n: Name| #[trigger] b.types@.contains_key(n) implies exists|j: int| #[trigger] declares(es, j, n) && (b.types@[n] is TableDeclared ==> es[j] is Table) && (b.types@[n] is Defined ==> !v.contains(j)) by {
        if !(b.types@[n] == a.types@[n] && a.types@.contains_key(n)) { assert(declares(es, i, n)); }
        else { let j = choose|j: int| #[trigger] declares(es, j, n) && (a.types@[n] is TableDeclared ==> es[j] is Table) && (a.types@[n] is Defined ==> !w.contains(j)); assert(declares(es, j, n)); }
    }
    assert forall|j: int| 0 <= j < es.len() && !v.contains(j) implies all_owned(ns_at(es, j), #[trigger] es[j], b.types@) by {
        if j != i { assert(all_owned(ns_at(es, j), es[j], a.types@)); }
    }
    assert forall|j: int| 0 <= j < es.len() && !v.contains(j) && #[trigger] es[j] is Table implies kind(b.types@[ns_at(es, j).push(fix(es[j]->Table_0.id@))]) is Table by {
        if j != i { assert(owns(ns_at(es, j), es[j], ns_at(es, j).push(fix(es[j]->Table_0.id@)))); }
    }
    assert forall|j: int, k: int, n: Name| #[trigger] declares(es, j, n) && #[trigger] declares(es, k, n) && !v.contains(j) && !v.contains(k) implies j == k by {
        if j != k { let o = if j == i { k } else { j }; assert(all_owned(ns_at(es, o), es[o], a.types@)); assert(defined(a.types@, n)); }
    }
    if !clash(es, b.types@) {
        assert(!clash(es, a.types@)) by {
            assert forall|j: int| 0 <= j < es.len() && #[trigger] es[j] is Table implies ({ let n = ns_at(es, j).push(fix(es[j]->Table_0.id@)); !defined(a.types@, n) || kind(a.types@[n]) is Table }) by { }
        }
        assert forall|n: Name| #[trigger] a.types@.contains_key(n) implies b.types@.contains_key(n) && kind(b.types@[n]) == kind(a.types@[n]) && (a.types@[n] is Defined ==> b.types@[n] is Defined) by {
            if a.types@[n] is TableDeclared { let j = choose|j: int| #[trigger] declares(es, j, n) && es[j] is Table; }
        }
        assert forall|j: int| 0 <= j < es.len() && !v.contains(j) implies made(b.types@, ns_at(es, j), #[trigger] es[j], at(b.nodes@, j)) by {
            if j == i { handled_made(a, b, es[i], i as usize, r); }
            else { assert(at(a.nodes@, j) == at(b.nodes@, j)); assert(made(a.types@, ns_at(es, j), es[j], at(a.nodes@, j))); made_grows(a.types@, b.types@, ns_at(es, j), es[j], at(a.nodes@, j)); }
        }
    }
}
pub open spec fn queued(q: Queue<'_>, i: int) -> bool { exists|k: int| 0 <= k < q.len() && #[trigger] q[k].1.0 == i }
pub open spec fn waiting(p: Queue<'_>, q: Queue<'_>) -> ISet<int> { ISet::new(|i: int| queued(p, i) || queued(q, i)) }
/// an element in a queue: put off, with the namespace it was declared in, or not looked at yet
pub open spec fn entry<'a>(es: Elements<'a>, x: (Option<Option<ast::Namespace<'a>>>, IndexedElement<'a>)) -> bool {
    x.1.0 < es.len() && x.1.1 == es[x.1.0 as int] && (x.0 is Some ==> ns_name(x.0->0) == ns_at(es, x.1.0 as int))
}
pub open spec fn queue_ok(es: Elements<'_>, q: Queue<'_>) -> bool {
    (forall|k: int| 0 <= k < q.len() ==> entry(es, #[trigger] q[k])) && forall|k: int, l: int| 0 <= k < l < q.len() ==> (#[trigger] q[k]).1.0 != (#[trigger] q[l]).1.0
}
pub open spec fn fresh(es: Elements<'_>, b: Builder<'_>, p: Queue<'_>) -> bool {
    p.len() <= es.len() && ns_of(b) == ns_at(es, es.len() - p.len()) && forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).1.0 == es.len() - p.len() + k
}
#[verifier::opaque]
pub open spec fn ongoing<'a>(es: Elements<'a>, b: Builder<'a>, p: Queue<'a>, q: Queue<'a>) -> bool {
    &&& state(es, b, waiting(p, q))
    &&& queue_ok(es, p) && queue_ok(es, q)
    &&& forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < q.len() ==> (#[trigger] p[k]).1.0 != (#[trigger] q[l]).1.0
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).0 is Some
    &&& (forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).0 is Some) || fresh(es, b, p)
}
/// every declaration of the schema has its nodes, made in the namespace it was declared in, from the types of the whole schema; nothing else is declared
pub open spec fn whole<'a>(es: Elements<'a>, b: Builder<'a>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> made(b.types@, ns_at(es, i), #[trigger] es[i], at(b.nodes@, i))
    &&& forall|k: usize| #[trigger] b.nodes@.contains_key(k) ==> k < es.len()
    &&& forall|n: Name| #[trigger] b.types@.contains_key(n) ==> b.types@[n] is Defined && exists|i: int| #[trigger] declares(es, i, n)
    &&& forall|i: int, j: int, n: Name| #[trigger] declares(es, i, n) && #[trigger] declares(es, j, n) ==> i == j
}
impl<'a> Builder<'a> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.current_namespace is None, r.types@ == Types::<'a>::empty(), r.nodes@ == Nodes::<'a>::empty() { unimplemented!() }
}
pub proof fn begun<'a>(es: Elements<'a>, b: Builder<'a>, p: Queue<'a>)
    requires b.current_namespace is None, b.types@ == Types::<'a>::empty(), b.nodes@ == Nodes::<'a>::empty(),
        p.len() == es.len(), forall|k: int| 0 <= k < es.len() ==> (#[trigger] p[k]).0 is None && p[k].1.0 == k && p[k].1.1 == es[k]
    ensures ongoing(es, b, p, Seq::empty()), wf(b.types@)
{
    reveal(ongoing); reveal(state);
    assert forall|i: int| 0 <= i < es.len() implies waiting(p, Seq::empty()).contains(i) by { assert(p[i].1.0 == i); }
}
/// b has every type and every node of a
pub open spec fn more<'a>(a: Builder<'a>, b: Builder<'a>) -> bool { a.types@.dom().subset_of(b.types@.dom()) && a.nodes@.dom().subset_of(b.nodes@.dom()) }
pub open spec fn names(es: Elements<'_>, k: int) -> Set<Name>
    decreases k
{
    if k <= 0 { Set::empty() } else {
        let ns = ns_at(es, k - 1);
        match es[k - 1] {
            ast::Element::Table(t) => names(es, k - 1).insert(ns.push(fix(t.id@))),
            ast::Element::Struct(t) => names(es, k - 1).insert(ns.push(fix(t.id@))),
            ast::Element::Enum(t) => names(es, k - 1).insert(ns.push(fix(t.id@))),
            ast::Element::Union(t) => names(es, k - 1).insert(ns.push(fix(t.id@))).insert(tag_in(ns, t.id@)),
            _ => names(es, k - 1),
        }
    }
}
pub proof fn names_all(es: Elements<'_>, k: int)
    requires 0 <= k <= es.len()
    ensures names(es, k).len() <= 2 * k, forall|i: int, n: Name| #[trigger] declares(es, i, n) && i < k ==> names(es, k).contains(n)
    decreases k
{
    if k > 0 { names_all(es, k - 1); assert forall|i: int, n: Name| #[trigger] declares(es, i, n) && i < k implies names(es, k).contains(n) by { } }
}
/// what can still be added
pub open spec fn room<'a>(es: Elements<'a>, b: Builder<'a>) -> int { 3 * es.len() - b.types@.len() - b.nodes@.len() }
pub proof fn more_room<'a>(es: Elements<'a>, a: Builder<'a>, b: Builder<'a>, p: Queue<'a>, q: Queue<'a>)
    requires ongoing(es, b, q, p), more(a, b), es.len() <= usize::MAX
    ensures 0 <= room(es, b) <= room(es, a), a.types@.len() <= b.types@.len(), a.nodes@.len() <= b.nodes@.len()
{
    reveal(ongoing); reveal(state);
    vstd::set_lib::lemma_len_subset(a.types@.dom(), b.types@.dom());
    vstd::set_lib::lemma_len_subset(a.nodes@.dom(), b.nodes@.dom());
    names_all(es, es.len() as int);
    assert(b.types@.dom().subset_of(names(es, es.len() as int)));
    vstd::set_lib::lemma_len_subset(b.types@.dom(), names(es, es.len() as int));
    at_most(b.nodes@.dom(), es.len() as int);
}
pub proof fn at_most(s: Set<usize>, n: int)
    requires forall|k: usize| #[trigger] s.contains(k) ==> k < n, 0 <= n
    ensures s.len() <= n
    decreases n
{
    if n == 0 { assert(s =~= Set::empty()); } else if n - 1 <= usize::MAX { at_most(s.remove((n - 1) as usize), n - 1); } else { at_most(s, n - 1); }
}
pub open spec fn same<'a>(a: Builder<'a>, b: Builder<'a>) -> bool { a.types@.dom() =~= b.types@.dom() && a.nodes@.dom() =~= b.nodes@.dom() }
/// s: the builder at the start of the round
#[verifier::opaque]
pub open spec fn put_off<'a>(es: Elements<'a>, s: Builder<'a>, b: Builder<'a>, u: Queue<'a>) -> bool {
    &&& more(s, b)
    &&& same(s, b) ==> s.types@ =~= b.types@
    &&& forall|k: int| 0 <= k < u.len() ==> {
            let i = (#[trigger] u[k]).1.0 as int;
            (es[i] is Table ==> known(b.types@, ns_at(es, i).push(fix(es[i]->Table_0.id@)))) && (same(s, b) ==> refused(b.types@, ns_at(es, i), es[i]))
        }
}
/// an element that cannot be right makes the schema faulty
pub proof fn failing<'a>(es: Elements<'a>, a0: Builder<'a>, p: Queue<'a>, u: Queue<'a>)
    requires ongoing(es, a0, p, u), es.len() <= usize::MAX
    ensures p.len() > 0 ==> forall|b: Builder<'a>, r: Result<bool>| #[trigger] handled(moved(a0, p[0].0), b, p[0].1.1, p[0].1.0, r) && r is Err ==> faulty(es)
{
    reveal(ongoing); reveal(faulty);
    if p.len() > 0 {
        let i = p[0].1.0 as int; let a = moved(a0, p[0].0); let w = waiting(p, u);
        assert(entry(es, p[0])); assert(w.contains(i)); assert(ns_of(a) == ns_at(es, i));
        assert forall|b: Builder<'a>, r: Result<bool>| #[trigger] handled(a, b, p[0].1.1, p[0].1.0, r) && r is Err implies faulty(es) by {
            reveal(handled);
            if bad(a0.types@, ns_at(es, i), es[i]) { assert(at_fault(es, a0, w)); }
            else {
                let ns = ns_at(es, i);
                match es[i] {
                    ast::Element::Table(t) => { assert(owns(ns, es[i], ns.push(fix(t.id@)))); }
                    ast::Element::Struct(t) => { assert(owns(ns, es[i], ns.push(fix(t.id@)))); }
                    ast::Element::Enum(t) => { assert(owns(ns, es[i], ns.push(fix(t.id@)))); }
                    ast::Element::Union(t) => { assert(owns(ns, es[i], ns.push(fix(t.id@))) && owns(ns, es[i], tag_in(ns, t.id@))); }
                    _ => {}
                }
                assert(exists|n: Name| #[trigger] owns(ns_at(es, i), es[i], n) && defined(a.types@, n));
                let n = choose|n: Name| #[trigger] owns(ns_at(es, i), es[i], n) && defined(a.types@, n);
                reveal(state);
                let j = choose|j: int| #[trigger] declares(es, j, n) && !w.contains(j);
                assert(declares(es, i, n) && declares(es, j, n) && i != j);
            }
        }
    }
}
/// a round without progress: what is left waits for names nobody defines
pub proof fn no_progress<'a>(es: Elements<'a>, s: Builder<'a>, b: Builder<'a>, u: Queue<'a>)
    requires ongoing(es, b, u, Seq::empty()), put_off(es, s, b, u), u.len() > 0, es.len() <= usize::MAX
    ensures s.types@.len() == b.types@.len() && s.nodes@.len() == b.nodes@.len() ==> faulty(es)
{
    reveal(ongoing); reveal(put_off); reveal(faulty);
    if s.types@.len() == b.types@.len() && s.nodes@.len() == b.nodes@.len() {
        vstd::set_lib::lemma_subset_equality(s.types@.dom(), b.types@.dom());
        vstd::set_lib::lemma_subset_equality(s.nodes@.dom(), b.nodes@.dom());
        let w = waiting(u, Seq::empty());
        assert(w.contains(u[0].1.0 as int));
        assert forall|i: int| #[trigger] w.contains(i) implies 0 <= i < es.len() && refused(b.types@, ns_at(es, i), es[i]) && (es[i] is Table ==> known(b.types@, ns_at(es, i).push(fix(es[i]->Table_0.id@)))) by {
            let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k].1.0 == i; assert(entry(es, u[k]));
        }
        assert(at_fault(es, b, w));
    }
}
/// a step of a round
pub proof fn deferred<'a>(es: Elements<'a>, s: Builder<'a>, a: Builder<'a>, b: Builder<'a>, i: int, ok: bool, w: ISet<int>, u: Queue<'a>, u2: Queue<'a>)
    requires put_off(es, s, a, u), state(es, a, w), w.contains(i), 0 <= i < es.len() <= usize::MAX, ns_of(a) == ns_at(es, i), handled(a, b, es[i], i as usize, Ok::<bool, Error>(ok)),
        ok ==> u2 =~= u, !ok ==> u2.len() == u.len() + 1 && u2.drop_last() =~= u && u2.last().1.0 == i
    ensures put_off(es, s, b, u2)
{
    reveal(put_off);
    handled_keeps(a, b, es[i], i as usize, Ok::<bool, Error>(ok));
    assert(more(a, b));
    assert(!a.nodes@.contains_key(i as usize)) by { reveal(state); }
    assert(same(a, b) ==> a.types@ =~= b.types@ && (!ok ==> refused(b.types@, ns_at(es, i), es[i]))) by { reveal(handled); }
    assert(same(s, b) ==> same(s, a) && same(a, b));
    assert(!ok && es[i] is Table ==> known(b.types@, ns_at(es, i).push(fix(es[i]->Table_0.id@)))) by { reveal(handled); }
    assert forall|k: int| 0 <= k < u2.len() implies {
            let j = (#[trigger] u2[k]).1.0 as int;
            (es[j] is Table ==> known(b.types@, ns_at(es, j).push(fix(es[j]->Table_0.id@)))) && (same(s, b) ==> refused(b.types@, ns_at(es, j), es[j]))
        } by { if k < u.len() { assert(u[k] == u2.drop_last()[k] || ok); assert(u2[k] == u[k]); } }
}
/// a schema is not faulty for nothing: one table whose field is of the table itself
pub proof fn prop_g04_accepts<'a>(es: Elements<'a>)
    requires es.len() == 1, es[0] is Table, es[0]->Table_0.fields@.len() == 1, es[0]->Table_0.fields@[0].ty is Ident, es[0]->Table_0.fields@[0].ty->Ident_0@ == seq![es[0]->Table_0.id@]
    ensures !faulty(es)
{
    reveal(faulty); reveal(state);
    assert(ns_at(es, 0) =~= Seq::<Seq<char>>::empty());
    let t = es[0]->Table_0;
    assert forall|b: Builder<'a>, w: ISet<int>| !#[trigger] at_fault(es, b, w) by {
        if at_fault(es, b, w) {
            assert(!bad(b.types@, ns_at(es, 0), es[0]));
            let i = choose|i: int| w.contains(i); assert(w.contains(i)); assert(i == 0);
            assert(denotes(ns_at(es, 0), t.fields@[0].ty->Ident_0@) == ns_at(es, 0).push(fix(t.id@)));
        }
    }
}
pub proof fn swapped<'a>(es: Elements<'a>, b: Builder<'a>, p: Queue<'a>, q: Queue<'a>)
    requires ongoing(es, b, p, q), p.len() == 0
    ensures ongoing(es, b, q, Seq::empty()), q.len() == 0 ==> whole(es, b)
{
    reveal(ongoing);
    assert(waiting(p, q) =~= waiting(q, Seq::empty()));
    if q.len() == 0 { assert(waiting(p, q) =~= ISet::empty()); ended(es, b); }
}
pub proof fn same_state<'a>(es: Elements<'a>, a: Builder<'a>, b: Builder<'a>, w: ISet<int>)
    requires state(es, a, w), b.types == a.types, b.nodes == a.nodes ensures state(es, b, w)
{ reveal(state); }
pub open spec fn moved<'a>(b: Builder<'a>, n: Option<Option<ast::Namespace<'a>>>) -> Builder<'a> { match n { Some(n) => Builder { current_namespace: n, ..b }, None => b } }
pub proof fn popped<'a>(es: Elements<'a>, s: Builder<'a>, a0: Builder<'a>, b: Builder<'a>, p: Queue<'a>, u: Queue<'a>, p2: Queue<'a>, u2: Queue<'a>)
    requires ongoing(es, a0, p, u), put_off(es, s, a0, u), es.len() <= usize::MAX, p.len() > 0, p2 =~= p.subrange(1, p.len() as int),
        handled(moved(a0, p[0].0), b, p[0].1.1, p[0].1.0, Ok::<bool, Error>(u2.len() == u.len())), wf(b.types@),
        u2 =~= u || u2 =~= u.push((Some(b.current_namespace), p[0].1)),
    ensures ongoing(es, b, p2, u2), put_off(es, s, b, u2)
{
    reveal(ongoing);
    let a = moved(a0, p[0].0); let e = p[0].1;
    let i = e.0 as int;
    assert(entry(es, p[0]));
    assert(ns_of(a) == ns_at(es, i));
    let w = waiting(p, u); let v = waiting(p2, u2);
    assert(queued(p, i));
    assert forall|j: int| j != i implies (#[trigger] v.contains(j)) == w.contains(j) by {
        if queued(p, j) { let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k].1.0 == j; assert(p2[k - 1].1.0 == j); }
        if queued(p2, j) { let k = choose|k: int| 0 <= k < p2.len() && #[trigger] p2[k].1.0 == j; assert(p[k + 1].1.0 == j); }
        if queued(u, j) { let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k].1.0 == j; assert(u2[k].1.0 == j); }
        if queued(u2, j) { let k = choose|k: int| 0 <= k < u2.len() && #[trigger] u2[k].1.0 == j; assert(u[k].1.0 == j); }
    }
    assert forall|k: int| 0 <= k < p2.len() implies p2[k].1.0 != i && p2[k] == p[k + 1] by { assert(p2[k] == p[k + 1]); }
    assert(v.contains(i) == (u2 != u)) by {
        if u2 != u { assert(u2[u.len() as int].1.0 == i); }
        else if queued(u, i) { let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k].1.0 == i; assert(p[0].1.0 != u[k].1.0); }
    }
    same_state(es, a0, a, w);
    stepped(es, a, b, i, Ok::<bool, Error>(u2.len() == u.len()), w, v);
    handled_keeps(a, b, es[i], i as usize, Ok::<bool, Error>(u2.len() == u.len()));
    assert(put_off(es, s, a, u)) by { reveal(put_off); }
    deferred(es, s, a, b, i, u2.len() == u.len(), w, u, u2);
    assert(ns_at(es, i + 1) == if es[i] is Namespace { fixall(es[i]->Namespace_0.ident@) } else { ns_at(es, i) });
    assert(ns_of(b) == ns_at(es, i + 1));
    assert(queue_ok(es, p2));
    assert(queue_ok(es, u2));
}
pub proof fn ended<'a>(es: Elements<'a>, b: Builder<'a>)
    requires state(es, b, ISet::empty())
    ensures whole(es, b)
{
    reveal(state);
    assert(!clash(es, b.types@)) by {
        assert forall|j: int| 0 <= j < es.len() && #[trigger] es[j] is Table implies ({ let n = ns_at(es, j).push(fix(es[j]->Table_0.id@)); !defined(b.types@, n) || kind(b.types@[n]) is Table }) by { }
    }
    assert forall|n: Name| #[trigger] b.types@.contains_key(n) implies b.types@[n] is Defined by {
        let i = choose|i: int| #[trigger] declares(es, i, n);
        assert(all_owned(ns_at(es, i), es[i], b.types@));
    }
}
impl<'a> Builder<'a> {
//@ fn ir/transform.rs Builder try_type
    ensures r is Some == resolves(self.types@, ns_of(*self), *ty), r is Some ==> means(self.types@, ns_of(*self), *ty, r->0)
    decreases ty
//@ endfn
//@ fn ir/transform.rs Builder new_enum
    ensures post_enum(*old(self), *final(self), *e, pos, r)
//@ closure 1
|$1: ()| -> (vr: Error)
//@ closure 2
|$1: &ast::EnumVariant<'a>| -> (vr: ir::EnumVariant<'a>) ensures variant(*$1, vr)
//@ endfn
//@ fn ir/transform.rs Builder generate_enum_for_union
    ensures kept(*old(self), *final(self)), final(self).nodes@ == old(self).nodes@,
        r is Err == defined(old(self).types@, tag_name(*old(self), u.id@)),
        r is Err ==> final(self).types@ == old(self).types@,
        r is Ok ==> one_type(*old(self), *final(self), tag_name(*old(self), u.id@)) && tag_enum(tag_name(*old(self), u.id@), *u, r->Ok_0)
            && enum_type(kind(final(self).types@[tag_name(*old(self), u.id@)]), r->Ok_0),
        wf(old(self).types@) ==> wf(final(self).types@)
//@ closure 1
|$1: &ast::EnumVariant<'a>| -> (vr: ir::EnumVariant<'a>) ensures variant(*$1, vr)
//@ endfn
//@ fn ir/transform.rs Builder new_union
    ensures post_union(*old(self), *final(self), *u, pos, r)
//@ loop 1
    invariant vx_k1 <= u.variants@.len(), *self == *old(self), ident@ == name_of(*self, u.id@), !defined(self.types@, name_of(*self, u.id@)), forall|i: int| 0 <= i < vx_k1 ==> variant_resolves(self.types@, ns_of(*self), #[trigger] u.variants@[i]),
        variants@.len() == vx_k1, forall|i: int| 0 <= i < vx_k1 ==> union_variant(self.types@, ns_of(*self), u.variants@[i], #[trigger] variants@[i])
    decreases u.variants@.len() - vx_k1
//@ endfn
//@ fn ir/transform.rs Builder new_table
    requires wf(old(self).types@)
    ensures post_table(*old(self), *final(self), *t, pos, r)
//@ loop 1
    invariant vx_k1 <= t.fields@.len(), kept(*old(self), *self), self.nodes == old(self).nodes, !defined(old(self).types@, name_of(*old(self), t.id@)), wf(old(self).types@),
        self.types@ == old(self).types@.insert(name_of(*old(self), t.id@), CustomTypeStatus::TableDeclared), wf(self.types@), ident@ == name_of(*old(self), t.id@),
        forall|i: int| 0 <= i < vx_k1 ==> resolves(self.types@, ns_of(*self), (#[trigger] t.fields@[i]).ty),
        laid(self.types@, ns_of(*self), t.fields@.take(vx_k1 as int), fields@)
    decreases t.fields@.len() - vx_k1
//@ loopstart 1
    let ghost vx_before = fields@;
    proof { laid_step(self.types@, ns_of(*self), t.fields@, vx_k1 as int, vx_before); }
//@ loopafter 1
    proof { assert(t.fields@.take(t.fields@.len() as int) =~= t.fields@); }
//@ endfn
//@ fn ir/transform.rs Builder new_struct
    ensures post_struct(*old(self), *final(self), *t, pos, r)
//@ loop 1
    invariant vx_k1 <= t.fields@.len(), *self == *old(self), ident@ == name_of(*self, t.id@), !defined(self.types@, name_of(*self, t.id@)), forall|i: int| 0 <= i < vx_k1 ==> resolves(self.types@, ns_of(*self), (#[trigger] t.fields@[i]).ty),
        fields@.len() == vx_k1, forall|i: int| 0 <= i < vx_k1 ==> struct_field(self.types@, ns_of(*self), t.fields@[i], #[trigger] fields@[i])
    decreases t.fields@.len() - vx_k1
//@ endfn
//@ fn ir/transform.rs Builder new_root
    ensures post_root(*old(self), *final(self), name_of(*old(self), root.typename@), r)
//@ endfn
//@ fn ir/transform.rs Builder new_root_ident
    ensures post_root(*old(self), *final(self), ident@, r)
//@ endfn
//@ fn ir/transform.rs Builder new_rpc
    ensures post_rpc(*old(self), *final(self), *rpc, pos, r)
//@ loop 1
    invariant vx_k1 <= rpc.methods@.len(), self.current_namespace == old(self).current_namespace, self.types == old(self).types, self.nodes == old(self).nodes,
        ident@ == name_of(*old(self), rpc.id@),
        forall|i: int| 0 <= i < vx_k1 ==> tables(self.types@, ns_of(*self), #[trigger] rpc.methods@[i]) && stream_of(rpc.methods@[i]) is Some,
        methods@.len() == vx_k1, forall|i: int| 0 <= i < vx_k1 ==> method(ns_of(*self), rpc.methods@[i], #[trigger] methods@[i])
    decreases rpc.methods@.len() - vx_k1
//@ loopstart 1
    proof { stream_literals(); }
//@ endfn
//@ fn ir/transform.rs Builder new_element
    requires wf(old(self).types@)
    ensures wf(final(self).types@), handled(*old(self), *final(self), vx_arg.1, vx_arg.0, r)
//@ hint start
    proof { reveal(handled); }
//@ endfn
//@ fn ir/transform.rs Builder build upto_loop sub:fn~build=>fn~vx_build sub:Result<ir::Root<'a>>=>Result<Builder<'a>>
    ensures r is Ok ==> whole(schema.elements@, r->Ok_0), r is Err ==> faulty(schema.elements@)
//@ closure 1
|$1: (usize, ast::Element<'a>)| -> (vr: (Option<Option<ast::Namespace<'a>>>, IndexedElement<'a>)) ensures vr.0 is None, vr.1.0 == $1.0, vr.1.1 == $1.1
//@ hint start
    let ghost es = schema.elements@; proof { assert(es.len() == schema.elements.len()); }
//@ hint before \bloop\b
    proof { begun(es, context, input@); }
//@ loop 1
    invariant_except_break ongoing(es, context, input@, Seq::empty()),
    invariant es.len() <= usize::MAX, es == schema.elements@, wf(context.types@),
    ensures whole(es, context)
    decreases room(es, context)
//@ loopstart 1
    let ghost vx_s = context;
    proof { reveal(put_off); }
//@ loop 2
    invariant es.len() <= usize::MAX, es == schema.elements@, wf(context.types@), ongoing(es, context, input@, unsatisfied@), put_off(es, vx_s, context, unsatisfied@)
    ensures input@.len() == 0, wf(context.types@), put_off(es, vx_s, context, unsatisfied@), ongoing(es, context, input@, unsatisfied@)
    decreases input@.len()
//@ loopstart 2
    let ghost vx_p = input@; let ghost vx_u = unsatisfied@; let ghost vx_b = context;
    proof { failing(es, vx_b, vx_p, vx_u); }
//@ loopend 2
    proof { if vx_p.len() > 0 { popped(es, vx_s, vx_b, context, vx_p, vx_u, input@, unsatisfied@); } }
//@ loopafter 2
    proof { swapped(es, context, input@, unsatisfied@); reveal(put_off); more_room(es, vx_s, context, Seq::empty(), unsatisfied@); if unsatisfied@.len() > 0 { no_progress(es, vx_s, context, unsatisfied@); } }
//@ endfn
//@ fn ir/transform.rs Builder current_namespace
    ensures r is Some == self.current_namespace is Some, r is Some ==> *r->0 == self.current_namespace->0
//@ endfn
//@ fn ir/transform.rs Builder new_namespace
    ensures r == Ok::<bool, Error>(true), final(self).current_namespace == Some(*ns), final(self).types == old(self).types, final(self).nodes == old(self).nodes, final(self).root_types == old(self).root_types
//@ endfn
//@ fn ir/transform.rs Builder make_fully_qualified_ident
    ensures r@ =~= ns_of(*self).push(ident@)
//@ endfn
//@ fn ir/transform.rs Builder make_fully_qualified_ident_relative
    ensures r@ =~= ns_of(*self) + ident@
//@ endfn
//@ fn ir/transform.rs Builder make_fully_qualified_from_ast_qualified_ident
    ensures r@ == denotes(ns_of(*self), qualified_ident@)
//@ endfn
//@ fn ir/transform.rs Builder find_custom_type
    ensures r is Some == known(self.types@, fully_qualified_ident@),
        r is Some ==> r->0 == ir::Type::Custom(ir::CustomTypeRef { ident: fully_qualified_ident, ty: kind(self.types@[fully_qualified_ident@]) })
//@ endfn
}
}
}
}
pub mod codegen {
use vstd::prelude::*;
use crate::vx::*;
use crate::ir::types as ir;
use crate::ir::types::*;
use crate::keywords::*;
verus! {
//@ fn codegen.rs - to_snake_ident
    ensures r == fixed::<'static>(snake(ident@))
//@ endfn
}
}
fn main() { }
