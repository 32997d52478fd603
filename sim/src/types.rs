//! The corpus: every supported type family and every derive attribute, each with its schema and its conversion
//! to and from `Val`.
use crate::base::part;
use crate::model::*;
use indexmap_v1 as im1;
use indexmap_v2 as im2;
use smallvec::SmallVec;
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::mem::size_of;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::*;

pub trait Model: Sized {
    /// Slices are stored as they are encoded in the machine's byte order.
    const RAW: bool = false;
    fn schema() -> S;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    fn seq_to_val(items: &[Self]) -> Val {
        Val::L(items.iter().map(|x| x.to_val()).collect())
    }
    fn seq_from_val(v: &Val) -> Vec<Self> {
        v.l().iter().map(Self::from_val).collect()
    }
}
fn seq(len: Len, elem: S, kind: Kind, esz: usize) -> S {
    S::Seq { len, elem: Box::new(elem), kind, esz }
}
fn map(k: S, v: S, kind: Kind, esz: usize) -> S {
    S::Map { len: Len::W(W::U32), k: Box::new(k), v: Box::new(v), kind, esz }
}
const L32: Len = Len::W(W::U32);

thread_local! {
    static ARENA: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Keeps a value alive until the case ends, for corpus types that borrow.
pub fn keep<T: 'static>(v: T) -> &'static T {
    let b = Box::new(v);
    let p: *const T = &*b;
    ARENA.with(|a| a.borrow_mut().push(b));
    unsafe { &*p }
}
pub fn end_case() {
    ARENA.with(|a| a.borrow_mut().clear());
}

macro_rules! m_uint { ($($t:ty, $raw:literal);*) => {$(
    impl Model for $t {
        const RAW: bool = $raw;
        fn schema() -> S { S::U(size_of::<$t>() as u8) }
        fn to_val(&self) -> Val { Val::U(*self as u128) }
        fn from_val(v: &Val) -> Self { v.u() as $t }
    })*}}
m_uint!(u16, true; u32, true; u64, true; u128, true);
/// Always 8 bytes, on every machine.
impl Model for usize {
    fn schema() -> S {
        S::Size
    }
    fn to_val(&self) -> Val {
        Val::U(*self as u128)
    }
    fn from_val(v: &Val) -> Self {
        v.u() as usize
    }
}
impl Model for u8 {
    const RAW: bool = true;
    fn schema() -> S {
        S::U(1)
    }
    fn to_val(&self) -> Val {
        Val::U(*self as u128)
    }
    fn from_val(v: &Val) -> Self {
        v.u() as u8
    }
    fn seq_to_val(items: &[u8]) -> Val {
        Val::B(items.to_vec())
    }
    fn seq_from_val(v: &Val) -> Vec<u8> {
        v.b().to_vec()
    }
}
macro_rules! m_int { ($($t:ty),*) => {$(
    impl Model for $t {
        const RAW: bool = true;
        fn schema() -> S { S::I(size_of::<$t>() as u8) }
        fn to_val(&self) -> Val { Val::I(*self as i128) }
        fn from_val(v: &Val) -> Self { v.i() as $t }
    })*}}
m_int!(i8, i16, i32, i64, i128);
macro_rules! m_float { ($($t:ty, $u:ty);*) => {$(
    impl Model for $t {
        const RAW: bool = true;
        fn schema() -> S { S::F(size_of::<$t>() as u8) }
        fn to_val(&self) -> Val { Val::U(self.to_bits() as u128) }
        fn from_val(v: &Val) -> Self { <$t>::from_bits(v.u() as $u) }
    })*}}
m_float!(f32, u32; f64, u64);
macro_rules! m_nz { ($($t:ty, $p:ty, $s:ident, $v:ident, $g:ident);*) => {$(
    impl Model for $t {
        fn schema() -> S { S::$s(size_of::<$t>() as u8) }
        fn to_val(&self) -> Val { Val::$v(self.get() as _) }
        fn from_val(v: &Val) -> Self { <$t>::new(v.$g() as $p).expect("sim: zero") }
    })*}}
m_nz!(NonZeroU8, u8, NonZeroU, U, u; NonZeroU16, u16, NonZeroU, U, u; NonZeroU32, u32, NonZeroU, U, u; NonZeroU64, u64, NonZeroU, U, u;
      NonZeroI8, i8, NonZeroI, I, i; NonZeroI16, i16, NonZeroI, I, i; NonZeroI32, i32, NonZeroI, I, i; NonZeroI64, i64, NonZeroI, I, i);
macro_rules! m_atomic { ($($t:ty, $p:ty);*) => {$(
    impl Model for $t {
        fn schema() -> S { <$p as Model>::schema() }
        fn to_val(&self) -> Val { self.load(Ordering::SeqCst).to_val() }
        fn from_val(v: &Val) -> Self { <$t>::new(<$p as Model>::from_val(v)) }
    })*}}
m_atomic!(AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64; AtomicI8, i8; AtomicI16, i16; AtomicI32, i32; AtomicI64, i64);

impl Model for bool {
    fn schema() -> S {
        S::Bool
    }
    fn to_val(&self) -> Val {
        // The raw byte: an invalid bool must be seen, not laundered.
        let raw = unsafe { std::ptr::read_volatile(self as *const bool as *const u8) };
        Val::U(raw as u128)
    }
    fn from_val(v: &Val) -> Self {
        v.u() != 0
    }
}
impl Model for char {
    fn schema() -> S {
        S::Char
    }
    fn to_val(&self) -> Val {
        let raw = unsafe { std::ptr::read_volatile(self as *const char as *const u32) };
        Val::U(raw as u128)
    }
    fn from_val(v: &Val) -> Self {
        char::from_u32(v.u() as u32).expect("sim: char")
    }
}
impl Model for () {
    fn schema() -> S {
        S::Tup(vec![])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![])
    }
    fn from_val(_: &Val) -> Self {}
}
impl Model for speedy::Endianness {
    fn schema() -> S {
        S::Enum { tag: W::U8, peek: false, variants: vec![(0, vec![]), (1, vec![])] }
    }
    fn to_val(&self) -> Val {
        Val::E(matches!(self, speedy::Endianness::BigEndian) as u32, vec![])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, _) => speedy::Endianness::LittleEndian,
            _ => speedy::Endianness::BigEndian,
        }
    }
}
fn text(v: &Val) -> String {
    String::from_utf8(v.b().to_vec()).expect("sim: utf8")
}
macro_rules! m_str { ($($t:ty, $f:expr);* $(;)?) => {$(
    impl Model for $t {
        fn schema() -> S { S::Str(L32) }
        fn to_val(&self) -> Val { Val::B(self.as_bytes().to_vec()) }
        fn from_val(v: &Val) -> Self { let f: fn(String) -> $t = $f; f(text(v)) }
    })*}}
m_str!(String, |s| s; Box<str>, |s| s.into_boxed_str(););
impl<'a> Model for Cow<'a, str> {
    fn schema() -> S {
        S::Str(L32)
    }
    fn to_val(&self) -> Val {
        part(self.as_bytes(), matches!(self, Cow::Owned(_)), true);
        Val::B(self.as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        let s = text(v);
        if s.len() % 2 == 0 {
            Cow::Owned(s)
        } else {
            Cow::Borrowed(keep(s).as_str())
        }
    }
}
impl<'a> Model for &'a str {
    fn schema() -> S {
        S::Str(L32)
    }
    fn to_val(&self) -> Val {
        part(self.as_bytes(), false, true);
        Val::B(self.as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        keep(text(v)).as_str()
    }
}
impl<T: Model> Model for Vec<T> {
    fn schema() -> S {
        seq(L32, T::schema(), Kind::Vec, size_of::<T>())
    }
    fn to_val(&self) -> Val {
        T::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        T::seq_from_val(v)
    }
}
impl<T: Model> Model for Box<[T]> {
    fn schema() -> S {
        seq(L32, T::schema(), Kind::Vec, size_of::<T>())
    }
    fn to_val(&self) -> Val {
        T::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        T::seq_from_val(v).into_boxed_slice()
    }
}
impl<'a, T: Model + Clone + 'static> Model for Cow<'a, [T]> {
    fn schema() -> S {
        seq(L32, T::schema(), Kind::Vec, size_of::<T>())
    }
    fn to_val(&self) -> Val {
        part(&self[..], matches!(self, Cow::Owned(_)), T::RAW);
        T::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        let x = T::seq_from_val(v);
        if x.len() % 2 == 0 {
            Cow::Owned(x)
        } else {
            Cow::Borrowed(&keep(x)[..])
        }
    }
}
impl<'a, T: Model + 'static> Model for &'a [T] {
    fn schema() -> S {
        seq(L32, T::schema(), Kind::Vec, size_of::<T>())
    }
    fn to_val(&self) -> Val {
        check_ref(*self);
        part(*self, false, T::RAW);
        T::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        &keep(T::seq_from_val(v))[..]
    }
}
impl<'a, T: Model + 'static, const N: usize> Model for &'a [T; N] {
    fn schema() -> S {
        S::Arr(N, Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        check_ref(&self[..]);
        part(&self[..], false, T::RAW);
        T::seq_to_val(&self[..])
    }
    fn from_val(v: &Val) -> Self {
        let x: Result<[T; N], _> = T::seq_from_val(v).try_into();
        keep(x.ok().expect("sim: array"))
    }
}
/// A reference handed out by the library must be aligned for its type.
fn check_ref<T>(s: &[T]) {
    if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
        std::panic::panic_any(Misaligned);
    }
}
pub struct Misaligned;
impl<T: Model> Model for Box<T> {
    fn schema() -> S {
        T::schema()
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn schema() -> S {
        S::Arr(N, Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        T::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        T::seq_from_val(v).try_into().ok().expect("sim: array")
    }
}
impl<A: smallvec::Array> Model for SmallVec<A>
where
    A::Item: Model,
{
    fn schema() -> S {
        seq(L32, <A::Item as Model>::schema(), Kind::Vec, size_of::<A::Item>())
    }
    fn to_val(&self) -> Val {
        <A::Item as Model>::seq_to_val(self)
    }
    fn from_val(v: &Val) -> Self {
        <A::Item as Model>::seq_from_val(v).into_iter().collect()
    }
}
fn list<'x, T: Model + 'x>(it: impl Iterator<Item = &'x T>) -> Vec<Val> {
    it.map(|x| x.to_val()).collect()
}
fn pairs<'x, K: Model + 'x, V: Model + 'x>(it: impl Iterator<Item = (&'x K, &'x V)>) -> Vec<Val> {
    it.map(|(k, v)| Val::L(vec![k.to_val(), v.to_val()])).collect()
}
fn unlist<'v, T: Model + 'v>(v: &'v Val) -> impl Iterator<Item = T> + 'v {
    v.l().iter().map(T::from_val)
}
fn unpairs<'v, K: Model + 'v, V: Model + 'v>(v: &'v Val) -> impl Iterator<Item = (K, V)> + 'v {
    v.l().iter().map(|p| (K::from_val(&p.l()[0]), V::from_val(&p.l()[1])))
}
fn sorted(mut v: Vec<Val>) -> Val {
    v.sort();
    Val::L(v)
}
macro_rules! m_set { ($($t:ident, [$($b:tt)*], $kind:ident, $fin:expr);* $(;)?) => {$(
    impl<T: Model + $($b)*> Model for $t<T> {
        fn schema() -> S { seq(L32, T::schema(), Kind::$kind, size_of::<T>()) }
        fn to_val(&self) -> Val { $fin(list(self.iter())) }
        fn from_val(v: &Val) -> Self { unlist(v).collect() }
    })*}}
macro_rules! m_map { ($($t:ident, [$($b:tt)*], $kind:ident, $fin:expr);* $(;)?) => {$(
    impl<T: Model + $($b)*, V: Model> Model for $t<T, V> {
        fn schema() -> S { map(T::schema(), V::schema(), Kind::$kind, size_of::<T>() + size_of::<V>()) }
        fn to_val(&self) -> Val { $fin(pairs(self.iter())) }
        fn from_val(v: &Val) -> Self { unpairs(v).collect() }
    })*}}
pub type Im1<K, V> = im1::IndexMap<K, V>;
pub type Im2<K, V> = im2::IndexMap<K, V>;
pub type Is1<K> = im1::IndexSet<K>;
pub type Is2<K> = im2::IndexSet<K>;
// Containers that keep an order of their own are compared in that order.
m_set!(BTreeSet, [Ord], Sorted, sorted; HashSet, [Hash + Eq], Hashed, sorted; Is1, [Hash + Eq], Indexed, Val::L; Is2, [Hash + Eq], Indexed, Val::L;);
m_map!(BTreeMap, [Ord], Sorted, sorted; HashMap, [Hash + Eq], Hashed, sorted; Im1, [Hash + Eq], Indexed, Val::L; Im2, [Hash + Eq], Indexed, Val::L;);
/// A hasher of the user's own.
#[derive(Clone, Default)]
pub struct OwnHasher;
pub struct OwnHash(u64);
impl std::hash::BuildHasher for OwnHasher {
    type Hasher = OwnHash;
    fn build_hasher(&self) -> OwnHash {
        OwnHash(7)
    }
}
impl std::hash::Hasher for OwnHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
pub type OwnMap<K, V> = HashMap<K, V, OwnHasher>;
pub type OwnSet<K> = HashSet<K, OwnHasher>;
m_set!(OwnSet, [Hash + Eq], Hashed, sorted;);
m_map!(OwnMap, [Hash + Eq], Hashed, sorted;);
macro_rules! m_cow { ($($t:ty, [$($g:tt)*]);* $(;)?) => {$(
    impl<'a, $($g)*> Model for Cow<'a, $t> {
        fn schema() -> S { <$t as Model>::schema() }
        fn to_val(&self) -> Val { (**self).to_val() }
        fn from_val(v: &Val) -> Self {
            let x = <$t as Model>::from_val(v);
            if v.l().len() % 2 == 0 { Cow::Owned(x) } else { Cow::Borrowed(keep(x)) }
        }
    })*}}
m_cow!(HashMap<K, V>, [K: Model + Hash + Eq + Clone + 'static, V: Model + Clone + 'static];
       BTreeMap<K, V>, [K: Model + Ord + Clone + 'static, V: Model + Clone + 'static];
       HashSet<K>, [K: Model + Hash + Eq + Clone + 'static];
       BTreeSet<K>, [K: Model + Ord + Clone + 'static];);
impl<T: Model> Model for Option<T> {
    fn schema() -> S {
        S::Opt(Box::new(T::schema()))
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::N,
            Some(v) => Val::S(Box::new(v.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::N => None,
            Val::S(v) => Some(T::from_val(v)),
            _ => panic!("sim: option"),
        }
    }
}
impl<T: Model, E: Model> Model for Result<T, E> {
    fn schema() -> S {
        S::Res(Box::new(T::schema()), Box::new(E::schema()))
    }
    fn to_val(&self) -> Val {
        match self {
            Ok(v) => Val::E(0, vec![v.to_val()]),
            Err(v) => Val::E(1, vec![v.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, v) => Ok(T::from_val(&v[0])),
            Val::E(_, v) => Err(E::from_val(&v[0])),
            _ => panic!("sim: result"),
        }
    }
}
impl<T: Model> Model for Range<T> {
    fn schema() -> S {
        S::Tup(vec![T::schema(), T::schema()])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.start.to_val(), self.end.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        T::from_val(&v.l()[0])..T::from_val(&v.l()[1])
    }
}
impl<T: Model> Model for RangeInclusive<T> {
    fn schema() -> S {
        S::Tup(vec![T::schema(), T::schema()])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.start().to_val(), self.end().to_val()])
    }
    fn from_val(v: &Val) -> Self {
        T::from_val(&v.l()[0])..=T::from_val(&v.l()[1])
    }
}
macro_rules! m_tuple { ($($($n:ident $i:tt),+;)*) => {$(
    impl<$($n: Model),+> Model for ($($n,)+) {
        fn schema() -> S { S::Tup(vec![$($n::schema()),+]) }
        fn to_val(&self) -> Val { Val::L(vec![$(self.$i.to_val()),+]) }
        fn from_val(v: &Val) -> Self { ($($n::from_val(&v.l()[$i]),)+) }
    })*}}
m_tuple!(A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;);

impl Model for std::time::Duration {
    fn schema() -> S {
        S::Duration
    }
    fn to_val(&self) -> Val {
        Val::L(vec![Val::U(self.as_secs() as u128), Val::U(self.subsec_nanos() as u128)])
    }
    fn from_val(v: &Val) -> Self {
        std::time::Duration::new(v.l()[0].u() as u64, v.l()[1].u() as u32)
    }
}
impl Model for std::time::SystemTime {
    fn schema() -> S {
        S::SystemTime
    }
    fn to_val(&self) -> Val {
        self.duration_since(std::time::UNIX_EPOCH).expect("sim: time before the epoch").to_val()
    }
    fn from_val(v: &Val) -> Self {
        std::time::UNIX_EPOCH + std::time::Duration::from_val(v)
    }
}
impl Model for chrono::DateTime<chrono::Utc> {
    fn schema() -> S {
        S::Chrono
    }
    fn to_val(&self) -> Val {
        Val::L(vec![Val::I(self.timestamp() as i128), Val::U(self.timestamp_subsec_nanos() as u128)])
    }
    fn from_val(v: &Val) -> Self {
        chrono::DateTime::from_timestamp(v.l()[0].i() as i64, v.l()[1].u() as u32).expect("sim: timestamp")
    }
}
impl Model for uuid::Uuid {
    fn schema() -> S {
        S::Raw(16)
    }
    fn to_val(&self) -> Val {
        Val::B(self.as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        uuid::Uuid::from_slice(v.b()).expect("sim: uuid")
    }
}
impl Model for regex::Regex {
    fn schema() -> S {
        S::Regex
    }
    fn to_val(&self) -> Val {
        Val::B(self.as_str().as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        regex::Regex::new(&text(v)).expect("sim: regex")
    }
}
impl Model for std::net::Ipv4Addr {
    fn schema() -> S {
        S::U(4)
    }
    fn to_val(&self) -> Val {
        Val::U(u32::from(*self) as u128)
    }
    fn from_val(v: &Val) -> Self {
        std::net::Ipv4Addr::from(v.u() as u32)
    }
}
impl Model for std::net::Ipv6Addr {
    fn schema() -> S {
        S::U(16)
    }
    fn to_val(&self) -> Val {
        Val::U(u128::from(*self))
    }
    fn from_val(v: &Val) -> Self {
        std::net::Ipv6Addr::from(v.u())
    }
}
impl Model for std::net::IpAddr {
    fn schema() -> S {
        S::Enum { tag: W::U8, peek: false, variants: vec![(0, vec![Field::new(S::U(4))]), (1, vec![Field::new(S::U(16))])] }
    }
    fn to_val(&self) -> Val {
        match self {
            std::net::IpAddr::V4(a) => Val::E(0, vec![a.to_val()]),
            std::net::IpAddr::V6(a) => Val::E(1, vec![a.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, v) => std::net::IpAddr::V4(Model::from_val(&v[0])),
            Val::E(_, v) => std::net::IpAddr::V6(Model::from_val(&v[0])),
            _ => panic!("sim: ip"),
        }
    }
}
macro_rules! m_glam { ($($t:ident, $n:expr, $e:ty, $arr:ident, $new:expr);* $(;)?) => {$(
    impl Model for glam::$t {
        fn schema() -> S { S::Arr($n, Box::new(<$e as Model>::schema())) }
        fn to_val(&self) -> Val { Val::L(self.$arr().iter().map(|x| x.to_val()).collect()) }
        fn from_val(v: &Val) -> Self { let a: Vec<$e> = v.l().iter().map(Model::from_val).collect(); let f: fn(&[$e]) -> glam::$t = $new; f(&a) }
    })*}}
m_glam!(
    Vec2, 2, f32, to_array, |a| glam::Vec2::new(a[0], a[1]);
    Vec3, 3, f32, to_array, |a| glam::Vec3::new(a[0], a[1], a[2]);
    DVec4, 4, f64, to_array, |a| glam::DVec4::new(a[0], a[1], a[2], a[3]);
    IVec3, 3, i32, to_array, |a| glam::IVec3::new(a[0], a[1], a[2]);
    UVec4, 4, u32, to_array, |a| glam::UVec4::new(a[0], a[1], a[2], a[3]);
    Quat, 4, f32, to_array, |a| glam::Quat::from_xyzw(a[0], a[1], a[2], a[3]);
    Mat3, 9, f32, to_cols_array, |a| glam::Mat3::from_cols_slice(a);
    DMat2, 4, f64, to_cols_array, |a| glam::DMat2::from_cols_slice(a);
    Affine3A, 12, f32, to_cols_array, |a| glam::Affine3A::from_cols_slice(a);
    Vec3A, 3, f32, to_array, |a| glam::Vec3A::new(a[0], a[1], a[2]);
    Vec4, 4, f32, to_array, |a| glam::Vec4::new(a[0], a[1], a[2], a[3]);
    DVec2, 2, f64, to_array, |a| glam::DVec2::new(a[0], a[1]);
    DVec3, 3, f64, to_array, |a| glam::DVec3::new(a[0], a[1], a[2]);
    IVec2, 2, i32, to_array, |a| glam::IVec2::new(a[0], a[1]);
    IVec4, 4, i32, to_array, |a| glam::IVec4::new(a[0], a[1], a[2], a[3]);
    UVec2, 2, u32, to_array, |a| glam::UVec2::new(a[0], a[1]);
    UVec3, 3, u32, to_array, |a| glam::UVec3::new(a[0], a[1], a[2]);
    DQuat, 4, f64, to_array, |a| glam::DQuat::from_xyzw(a[0], a[1], a[2], a[3]);
    Mat2, 4, f32, to_cols_array, |a| glam::Mat2::from_cols_slice(a);
    Mat3A, 9, f32, to_cols_array, |a| glam::Mat3A::from_cols_slice(a);
    Mat4, 16, f32, to_cols_array, |a| glam::Mat4::from_cols_slice(a);
    DMat3, 9, f64, to_cols_array, |a| glam::DMat3::from_cols_slice(a);
    DMat4, 16, f64, to_cols_array, |a| glam::DMat4::from_cols_slice(a);
    Affine2, 6, f32, to_cols_array, |a| glam::Affine2::from_cols_slice(a);
    DAffine2, 6, f64, to_cols_array, |a| glam::DAffine2::from_cols_slice(a);
    DAffine3, 12, f64, to_cols_array, |a| glam::DAffine3::from_cols_slice(a);
);
macro_rules! m_flags { ($($t:ident $n:literal $($f:ident $i:literal),*;)*) => {$(
    impl Model for glam::$t {
        fn schema() -> S { S::Flags($n) }
        fn to_val(&self) -> Val { Val::L(vec![$(self.$f.to_val()),*]) }
        fn from_val(v: &Val) -> Self { let v = v.l(); glam::$t::new($(bool::from_val(&v[$i])),*) }
    })*}}
m_flags!(BVec2 2 x 0, y 1; BVec3 3 x 0, y 1, z 2;);
/// May be kept as a vector register, so its parts are only reached by methods.
impl Model for glam::BVec4 {
    fn schema() -> S {
        S::Flags(4)
    }
    fn to_val(&self) -> Val {
        Val::L((0..4).map(|i| Val::U((self.bitmask() >> i & 1) as u128)).collect())
    }
    fn from_val(v: &Val) -> Self {
        let v = v.l();
        glam::BVec4::new(bool::from_val(&v[0]), bool::from_val(&v[1]), bool::from_val(&v[2]), bool::from_val(&v[3]))
    }
}

#[allow(unused_macros)]
macro_rules! count { () => { 0usize }; ($h:tt $($t:tt)*) => { 1usize + count!($($t)*) } }

/// A derived struct with its schema: the list after `=` are the schema modifiers matching the attributes.
macro_rules! dstruct {
    ($(#[$m:meta])* $name:ident $(<$lt:lifetime>)? { $( $(#[$a:meta])* $f:ident : {$($t:tt)*} = [$($md:expr),*] ),* $(,)? }) => {
        #[derive(Readable, Writable, Clone)]
        $(#[$m])*
        pub struct $name $(<$lt>)? { $( $(#[$a])* pub $f : $($t)* ),* }
        impl $(<$lt>)? Model for $name $(<$lt>)? {
            fn schema() -> S {
                S::Struct(vec![ $( { #[allow(unused_mut)] let mut f = Field::new(<$($t)* as Model>::schema()); $( f = $md(f); )* f } ),* ])
            }
            fn to_val(&self) -> Val { Val::L(vec![ $( { let x = &self.$f; x.to_val() } ),* ]) }
            fn from_val(v: &Val) -> Self {
                let l = v.l();
                let mut _i = 0;
                $( let $f = <$($t)* as Model>::from_val(&l[_i]); _i += 1; )*
                $name { $($f),* }
            }
        }
    }
}
/// As `dstruct`, for layouts without padding that the library may treat as raw bytes.
macro_rules! rawstruct {
    ($(#[$m:meta])* $name:ident { $( $(#[$a:meta])* $f:ident : {$($t:tt)*} = [$($md:expr),*] ),* $(,)? }) => {
        #[derive(Readable, Writable, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        $(#[$m])*
        pub struct $name { $( $(#[$a])* pub $f : $($t)* ),* }
        impl Model for $name {
            fn schema() -> S {
                S::Struct(vec![ $( { #[allow(unused_mut)] let mut f = Field::new(<$($t)* as Model>::schema()); $( f = $md(f); )* f } ),* ])
            }
            fn to_val(&self) -> Val { Val::L(vec![ $( { let x = self.$f; x.to_val() } ),* ]) }
            fn from_val(v: &Val) -> Self {
                let l = v.l();
                let mut _i = 0;
                $( let $f = <$($t)* as Model>::from_val(&l[_i]); _i += 1; )*
                $name { $($f),* }
            }
        }
    }
}
/// A derived enum with named-field variants; unit variants are written `A {}`.
macro_rules! denum {
    ($(#[$m:meta])* $name:ident $(<$lt:lifetime>)? tag $w:ident peek $peek:literal {
        $( $(#[$vm:meta])* $v:ident ($tag:expr) { $( $(#[$a:meta])* $f:ident : {$($t:tt)*} = [$($md:expr),*] ),* $(,)? } ),* $(,)? }) => {
        #[derive(Readable, Writable, Clone)]
        $(#[$m])*
        pub enum $name $(<$lt>)? { $( $(#[$vm])* $v { $( $(#[$a])* $f : $($t)* ),* } ),* }
        impl $(<$lt>)? Model for $name $(<$lt>)? {
            fn schema() -> S {
                S::Enum { tag: W::$w, peek: $peek, variants: vec![ $( ($tag, vec![ $( { #[allow(unused_mut)] let mut f = Field::new(<$($t)* as Model>::schema()); $( f = $md(f); )* f } ),* ]) ),* ] }
            }
            fn to_val(&self) -> Val {
                let mut _n = 0;
                $( if let $name::$v { $($f),* } = self { return Val::E(_n, vec![ $( $f.to_val() ),* ]); } _n += 1; )*
                unreachable!()
            }
            fn from_val(v: &Val) -> Self {
                let (n, l) = match v { Val::E(n, l) => (*n, l), _ => panic!("sim: enum") };
                let _ = l;
                let mut _k = 0;
                $( if n == _k { let mut _i = 0; $( let $f = <$($t)* as Model>::from_val(&l[_i]); _i += 1; )* return $name::$v { $($f),* }; } _k += 1; )*
                panic!("sim: variant")
            }
        }
    }
}

dstruct! { Plain { a: {u8} = [], b: {u16} = [], c: {u32} = [] } }
dstruct! { Nested { p: {Plain} = [], q: {Vec<Plain>} = [], o: {Option<Plain>} = [], t: {(u8, Plain)} = [] } }
dstruct! { LenTypes {
    #[speedy(length_type = u7)] a: {Vec<u8>} = [lt(W::U7)],
    #[speedy(length_type = u8)] b: {String} = [lt(W::U8)],
    #[speedy(length_type = u16)] c: {Vec<u16>} = [lt(W::U16)],
    #[speedy(length_type = u64)] d: {Vec<u8>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] e: {Vec<u32>} = [lt(W::Var)],
    #[speedy(length_type = u16)] f: {Option<Vec<u8>>} = [lt(W::U16)],
    #[speedy(length_type = u8)] g: {HashMap<u8, u16>} = [lt(W::U8)],
    #[speedy(length_type = u64_varint)] h: {BTreeSet<u16>} = [lt(W::Var)],
    #[speedy(length_type = u32)] i: {Option<String>} = [lt(W::U32)],
} }
dstruct! { LenTypesCow<'a> {
    #[speedy(length_type = u8)] a: {Cow<'a, [u16]>} = [lt(W::U8)],
    #[speedy(length_type = u16)] b: {Cow<'a, str>} = [lt(W::U16)],
    #[speedy(length_type = u64_varint)] c: {Cow<'a, BTreeMap<u8, u16>>} = [lt(W::Var)],
    #[speedy(length_type = u7)] d: {Option<Cow<'a, [u8]>>} = [lt(W::U7)],
} }
dstruct! { LenFields {
    n: {u8} = [small],
    #[speedy(length = usize::from(n.clone()) * 2)] v: {Vec<u16>} = [len_expr(0, 2, 1, 0)],
    m: {u16} = [small],
    #[speedy(length = m)] s: {String} = [len_of(2)],
    k: {u32} = [small],
    #[speedy(length = k)] c: {BTreeMap<u16, u8>} = [len_of(4)],
    j: {usize} = [small],
    #[speedy(length = j)] h: {HashSet<u8>} = [len_of(6)],
    #[speedy(length = n / 2 + 1)] b: {Vec<bool>} = [len_expr(0, 1, 2, 1)],
} }
dstruct! { LenOpt {
    n: {u8} = [small],
    #[speedy(length = n)] v: {Vec<u32>} = [len_of(0)],
    #[speedy(length = 3_u32)] w: {Vec<u16>} = [len_expr(0, 0, 1, 3)],
    tail: {u8} = [],
} }
dstruct! { Doe {
    a: {u8} = [],
    #[speedy(default_on_eof)] b: {u16} = [doe],
    #[speedy(default_on_eof)] c: {u32} = [doe],
    #[speedy(default_on_eof)] s: {String} = [doe],
} }
dstruct! { DoeVec { #[speedy(default_on_eof)] a: {Vec<u16>} = [doe], #[speedy(default_on_eof)] b: {Vec<u8>} = [doe] } }
dstruct! { DoeOpt {
    a: {u8} = [],
    #[speedy(default_on_eof)] b: {Option<u32>} = [doe],
    #[speedy(default_on_eof)] c: {Option<Vec<u8>>} = [doe],
    #[speedy(default_on_eof)] d: {Option<String>} = [doe],
} }
dstruct! { DoeLen {
    n: {u8} = [small],
    #[speedy(length = n, default_on_eof)] a: {Vec<u16>} = [len_of(0), doe],
    #[speedy(constant_prefix = "xy")] #[speedy(default_on_eof)] b: {u16} = [prefix(b"xy"), doe],
    #[speedy(length_type = u16, default_on_eof)] c: {HashMap<u8, u32>} = [lt(W::U16), doe],
} }
#[derive(Readable, Writable, Clone, Default)]
pub struct DoeInner {
    pub x: u16,
    pub y: Vec<u8>,
}
impl Model for DoeInner {
    fn schema() -> S {
        S::Struct(vec![Field::new(u16::schema()), Field::new(Vec::<u8>::schema())])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.x.to_val(), self.y.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        DoeInner { x: u16::from_val(&v.l()[0]), y: Model::from_val(&v.l()[1]) }
    }
}
dstruct! { DoeNested { a: {u32} = [], #[speedy(default_on_eof)] i: {DoeInner} = [doe], #[speedy(default_on_eof)] j: {(u8, u64)} = [doe], #[speedy(default_on_eof)] k: {[u16; 3]} = [doe] } }
dstruct! { DoeChars { #[speedy(default_on_eof)] a: {Vec<char>} = [doe] } }
dstruct! { EofBytes { a: {u16} = [], #[speedy(length = ..)] b: {Vec<u8>} = [until_eof] } }
dstruct! { EofInts { #[speedy(length = ..)] b: {Vec<u16>} = [until_eof] } }
dstruct! { EofPairs { a: {u8} = [], #[speedy(length = ..)] b: {Vec<(u8, u32)>} = [until_eof] } }
dstruct! { EofVecs { #[speedy(length = ..)] b: {Vec<Vec<u8>>} = [until_eof] } }
dstruct! { EofStr { a: {u8} = [], #[speedy(length = ..)] b: {String} = [until_eof] } }
dstruct! { EofSet { #[speedy(length = ..)] b: {BTreeSet<u16>} = [until_eof] } }
dstruct! { EofMap { #[speedy(length = ..)] b: {HashMap<u8, u16>} = [until_eof] } }
dstruct! { EofCow<'a> { a: {u8} = [], #[speedy(length = ..)] b: {Cow<'a, [u8]>} = [until_eof] } }
dstruct! { EofCowStr<'a> { #[speedy(length = ..)] b: {Cow<'a, str>} = [until_eof] } }
dstruct! { Skippy { a: {u8} = [], #[speedy(skip)] b: {Vec<u8>} = [skipped], c: {u16} = [], #[speedy(skip)] d: {u64} = [skipped] } }
dstruct! { Prefixed {
    #[speedy(constant_prefix = "ABC")] a: {u16} = [prefix(b"ABC")],
    #[speedy(constant_prefix = 10_u8)] b: {Option<u16>} = [prefix(&[10])],
    #[speedy(constant_prefix = b"\x00\xff")] c: {Vec<u8>} = [prefix(&[0, 255])],
    #[speedy(constant_prefix = true)] d: {()} = [prefix(&[1])],
    #[speedy(constant_prefix = '\u{82FA}')] e: {u8} = [prefix("\u{82FA}".as_bytes())],
} }
dstruct! { Varints {
    #[speedy(varint)] a: {u64} = [varint],
    b: {u8} = [],
    #[speedy(varint)] c: {u64} = [varint],
    #[speedy(length_type = u64_varint)] d: {Vec<u16>} = [lt(W::Var)],
    #[speedy(varint)] e: {u64} = [varint],
} }
dstruct! { Arrays { a: {[u8; 7]} = [], b: {[u16; 3]} = [], c: {[Plain; 2]} = [], d: {[String; 2]} = [], e: {[bool; 3]} = [] } }
dstruct! { Everything {
    a: {Option<Vec<(u16, String)>>} = [],
    b: {BTreeMap<u8, Vec<Option<u32>>>} = [],
    c: {Result<Vec<u64>, String>} = [],
    d: {Box<[u16]>} = [],
    e: {Varints} = [],
    f: {Mixed} = [],
    g: {[Option<u16>; 2]} = [],
    h: {(u8, (u16, (u32,)))} = [],
} }
#[derive(Readable, Writable)]
pub struct Atomics {
    a: AtomicU8,
    b: AtomicU16,
    c: AtomicU32,
    d: AtomicU64,
    e: AtomicI8,
    f: AtomicI16,
    g: AtomicI32,
    h: AtomicI64,
}
impl Model for Atomics {
    fn schema() -> S {
        S::Struct(
            [u8::schema(), u16::schema(), u32::schema(), u64::schema(), i8::schema(), i16::schema(), i32::schema(), i64::schema()].into_iter().map(Field::new).collect(),
        )
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let l = v.l();
        Atomics {
            a: Model::from_val(&l[0]),
            b: Model::from_val(&l[1]),
            c: Model::from_val(&l[2]),
            d: Model::from_val(&l[3]),
            e: Model::from_val(&l[4]),
            f: Model::from_val(&l[5]),
            g: Model::from_val(&l[6]),
            h: Model::from_val(&l[7]),
        }
    }
}
denum! { Mixed tag U32 peek false {
    A (0) {},
    #[speedy(tag = 7)] B (7) { x: {u8} = [], y: {Vec<u16>} = [] },
    C (8) { s: {String} = [] },
    #[speedy(tag = 0xabcdef01)] D (0xabcdef01) { a: {u8} = [], #[speedy(length = a)] b: {Vec<u8>} = [len_of(0)] },
} }
denum! { #[speedy(tag_type = u7)] TagU7 tag U7 peek false { A (0) {}, #[speedy(tag = 127)] B (127) { v: {u16} = [] } } }
denum! { #[speedy(tag_type = u8)] TagU8 tag U8 peek false { A (0) { #[speedy(varint)] v: {u64} = [varint] }, #[speedy(tag = 200)] B (200) { v: {Option<u16>} = [] }, C (201) {} } }
denum! { #[speedy(tag_type = u16)] TagU16 tag U16 peek false { #[speedy(tag = 0x0102)] A (0x0102) {}, B (0x0103) { v: {u32} = [] } } }
denum! { #[speedy(tag_type = u64)] TagU64 tag U64 peek false { A (0) {}, #[speedy(tag = 0xabcdef0123456789)] B (0xabcdef0123456789) { v: {u8} = [] } } }
denum! { #[speedy(tag_type = u64_varint)] TagVar tag Var peek false { A (0) {}, #[speedy(tag = 0x1234)] B (0x1234) { v: {u16} = [] }, #[speedy(tag = 0xFFFFFFFFFF)] C (0xFFFFFFFFFF) { s: {String} = [] } } }
denum! { #[speedy(tag_type = u8, peek_tag)] Peek8 tag U8 peek true {
    #[speedy(tag = 1)] One (1) { t: {u8} = [fixed(Val::U(1))], v: {u16} = [] },
    #[speedy(tag = 2)] Two (2) { t: {u8} = [fixed(Val::U(2))], v: {Vec<u8>} = [] },
} }
denum! { #[speedy(tag_type = u16)] #[speedy(peek_tag)] Peek16 tag U16 peek true {
    #[speedy(tag = 0x0101)] One (0x0101) { t: {u16} = [fixed(Val::U(0x0101))], v: {u32} = [] },
    #[speedy(tag = 0x0202)] Two (0x0202) { t: {u16} = [fixed(Val::U(0x0202))], v: {String} = [] },
} }
denum! { #[speedy(tag_type = u64_varint, peek_tag)] PeekVar tag Var peek true {
    #[speedy(tag = 5)] One (5) { #[speedy(varint)] t: {u64} = [varint, fixed(Val::U(5))], v: {u8} = [] },
    #[speedy(tag = 300)] Two (300) { #[speedy(varint)] t: {u64} = [varint, fixed(Val::U(300))], v: {u32} = [] },
    #[speedy(tag = 0x123456789ABCDEF0)] Three (0x123456789ABCDEF0) { #[speedy(varint)] t: {u64} = [varint, fixed(Val::U(0x123456789ABCDEF0))] },
} }
denum! { #[speedy(tag_type = u32, peek_tag)] Peek32 tag U32 peek true {
    #[speedy(tag = 0x01020304)] One (0x01020304) { t: {u32} = [fixed(Val::U(0x01020304))], #[speedy(length_type = u8)] v: {Vec<u16>} = [lt(W::U8)] },
} }
denum! { #[speedy(tag_type = u64, peek_tag)] Peek64 tag U64 peek true {
    #[speedy(tag = 0x0102030405060708)] One (0x0102030405060708) { t: {u64} = [fixed(Val::U(0x0102030405060708))], v: {u8} = [] },
    #[speedy(tag = 9)] Two (9) { t: {u64} = [fixed(Val::U(9))] },
} }
dstruct! { Peeks { a: {u8} = [], p: {Peek8} = [], q: {PeekVar} = [], r: {Vec<Peek16>} = [], s: {Peek32} = [], z: {u16} = [], t: {Peek64} = [] } }

/// Unit and tuple variants, which the macro does not cover.
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u8)]
pub enum Tuples {
    A,
    B(u8, u16, u32),
    C(#[speedy(length_type = u8)] Vec<u16>),
    D(u8, #[speedy(length = t0)] String),
}
impl Model for Tuples {
    fn schema() -> S {
        let f = Field::new;
        S::Enum {
            tag: W::U8,
            peek: false,
            variants: vec![
                (0, vec![]),
                (1, vec![f(S::U(1)), f(S::U(2)), f(S::U(4))]),
                (2, vec![lt(W::U8)(f(Vec::<u16>::schema()))]),
                (3, vec![small(f(S::U(1))), len_of(0)(f(String::schema()))]),
            ],
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Tuples::A => Val::E(0, vec![]),
            Tuples::B(a, b, c) => Val::E(1, vec![a.to_val(), b.to_val(), c.to_val()]),
            Tuples::C(v) => Val::E(2, vec![v.to_val()]),
            Tuples::D(a, b) => Val::E(3, vec![a.to_val(), b.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, _) => Tuples::A,
            Val::E(1, l) => Tuples::B(Model::from_val(&l[0]), Model::from_val(&l[1]), Model::from_val(&l[2])),
            Val::E(2, l) => Tuples::C(Model::from_val(&l[0])),
            Val::E(_, l) => Tuples::D(Model::from_val(&l[0]), Model::from_val(&l[1])),
            _ => panic!("sim: enum"),
        }
    }
}
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u8)]
pub enum Chain {
    Nil,
    Cons(u16, Box<Chain>),
}
impl Model for Chain {
    fn schema() -> S {
        S::Enum { tag: W::U8, peek: false, variants: vec![(0, vec![]), (1, vec![Field::new(S::U(2)), Field::new(S::Rec(Chain::schema))])] }
    }
    fn to_val(&self) -> Val {
        match self {
            Chain::Nil => Val::E(0, vec![]),
            Chain::Cons(a, b) => Val::E(1, vec![a.to_val(), b.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, _) => Chain::Nil,
            Val::E(_, l) => Chain::Cons(Model::from_val(&l[0]), Box::new(Chain::from_val(&l[1]))),
            _ => panic!("sim: enum"),
        }
    }
}
#[derive(Readable, Writable, Clone)]
pub struct Tree {
    pub v: u8,
    #[speedy(length_type = u8)]
    pub kids: Vec<Tree>,
}
impl Model for Tree {
    fn schema() -> S {
        S::Struct(vec![Field::new(S::U(1)), Field::new(seq(Len::W(W::U8), S::Rec(Tree::schema), Kind::Vec, size_of::<Tree>()))])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.v.to_val(), self.kids.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Tree { v: Model::from_val(&v.l()[0]), kids: Model::from_val(&v.l()[1]) }
    }
}

rawstruct! { #[repr(C)] RawC { a: {u16} = [], b: {u16} = [] } }
rawstruct! { #[repr(C)] RawPad { a: {u8} = [], b: {u32} = [] } }
rawstruct! { #[repr(C)] RawVar { a: {u32} = [], #[speedy(varint)] b: {u64} = [varint] } }
rawstruct! { #[repr(packed)] Packed { a: {u8} = [], b: {u32} = [], c: {u16} = [] } }
rawstruct! { #[repr(transparent)] Trans { a: {u32} = [] } }
rawstruct! { #[repr(transparent)] TransRaw { a: {RawC} = [] } }
rawstruct! { #[repr(C)] RawMix { a: {Trans} = [], b: {RawC} = [], c: {i16} = [], d: {[u8; 2]} = [] } }
rawstruct! { #[repr(C)] RawWide { a: {u64} = [], b: {i64} = [], c: {u128} = [] } }
dstruct! { RawHolder { a: {u8} = [], r: {RawC} = [], v: {Vec<RawC>} = [], w: {[RawC; 3]} = [], x: {Vec<Packed>} = [], y: {Vec<Trans>} = [], z: {Vec<RawMix>} = [] } }
dstruct! { RawMaps { a: {BTreeMap<u16, RawC>} = [], b: {HashMap<Trans, u16>} = [], c: {BTreeSet<RawMix>} = [], d: {HashMap<u8, Packed>} = [] } }

dstruct! { RefMix<'a> { a: {u8} = [], #[speedy(length_type = u8)] s: {&'a str} = [lt(W::U8)], b: {&'a [u8]} = [], c: {u16} = [], #[speedy(length_type = u16)] o: {Option<&'a str>} = [lt(W::U16)] } }
dstruct! { RefRaw<'a> { a: {u8} = [], #[speedy(length_type = u8)] p: {&'a [Packed]} = [lt(W::U8)], #[speedy(length_type = u16)] r: {&'a [RawC]} = [lt(W::U16)] } }
dstruct! { RefEof<'a> { a: {u8} = [], #[speedy(length = ..)] s: {&'a str} = [until_eof] } }
dstruct! { RefEofBytes<'a> { a: {u16} = [], #[speedy(length = ..)] s: {&'a [u8]} = [until_eof] } }
dstruct! { RefLen<'a> { n: {u8} = [small], #[speedy(length = usize::from(n.clone()) * 2)] s: {&'a [u8]} = [len_expr(0, 2, 1, 0)], #[speedy(length = n)] t: {&'a str} = [len_of(0)], z: {u8} = [] } }

dstruct! { WideLens<'a> {
    #[speedy(length_type = u64)] a: {Cow<'a, [u32]>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] b: {Vec<u64>} = [lt(W::Var)],
    #[speedy(length_type = u64)] c: {Option<Vec<u16>>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] d: {Cow<'a, [(u8, u16)]>} = [lt(W::Var)],
} }
dstruct! { WideSets<'a> {
    #[speedy(length_type = u64)] a: {BTreeSet<u32>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] b: {HashSet<u16>} = [lt(W::Var)],
    #[speedy(length_type = u64_varint)] c: {Cow<'a, HashSet<u64>>} = [lt(W::Var)],
    #[speedy(length_type = u64)] d: {Cow<'a, BTreeSet<u8>>} = [lt(W::U64)],
} }
dstruct! { WideMaps<'a> {
    #[speedy(length_type = u64)] a: {BTreeMap<u32, u16>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] b: {HashMap<u64, u64>} = [lt(W::Var)],
    #[speedy(length_type = u64)] c: {Cow<'a, HashMap<u16, u8>>} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] d: {Option<BTreeMap<u8, u32>>} = [lt(W::Var)],
} }
dstruct! { WideTexts<'a> {
    #[speedy(length_type = u64)] a: {String} = [lt(W::U64)],
    #[speedy(length_type = u64_varint)] b: {Cow<'a, str>} = [lt(W::Var)],
    #[speedy(length_type = u64)] c: {Option<Cow<'a, str>>} = [lt(W::U64)],
} }
dstruct! { LenWide<'a> {
    k: {usize} = [small],
    #[speedy(length = k)] a: {Vec<u32>} = [len_of(0)],
    l: {u32} = [small],
    #[speedy(length = l)] b: {BTreeSet<u16>} = [len_of(2)],
    m: {usize} = [small],
    #[speedy(length = m)] c: {Cow<'a, [u64]>} = [len_of(4)],
    o: {usize} = [small],
    #[speedy(length = o)] d: {Cow<'a, str>} = [len_of(6)],
} }
dstruct! { DoeWide<'a> {
    #[speedy(length_type = u64, default_on_eof)] a: {Cow<'a, [u32]>} = [lt(W::U64), doe],
    #[speedy(length_type = u64_varint, default_on_eof)] b: {Vec<u64>} = [lt(W::Var), doe],
    #[speedy(length_type = u8, default_on_eof)] c: {BTreeSet<u32>} = [lt(W::U8), doe],
    #[speedy(length_type = u16, default_on_eof)] d: {HashMap<u32, u32>} = [lt(W::U16), doe],
} }
dstruct! { EofWide<'a> { a: {u16} = [], #[speedy(length = ..)] b: {Cow<'a, [u32]>} = [until_eof] } }
dstruct! { EofDoe { a: {u8} = [], #[speedy(length = .., default_on_eof)] b: {Vec<u32>} = [until_eof, doe] } }
dstruct! { WideRef<'a> { #[speedy(length_type = u64)] a: {&'a [u8]} = [lt(W::U64)], #[speedy(length_type = u64_varint)] b: {&'a str} = [lt(W::Var)], #[speedy(length_type = u64)] c: {&'a [i8]} = [lt(W::U64)] } }
dstruct! { WideRefRaw<'a> { #[speedy(length_type = u64)] a: {&'a [u32]} = [lt(W::U64)], #[speedy(length_type = u64_varint)] b: {&'a [Packed]} = [lt(W::Var)] } }

rawstruct! { #[repr(C)] RawNest { a: {Trans} = [], b: {u32} = [] } }
rawstruct! { #[repr(C)] RawNest2 { a: {u16} = [], b: {TransU16} = [], c: {[Trans; 2]} = [] } }
rawstruct! { #[repr(transparent)] TransU16 { a: {u16} = [] } }
rawstruct! { #[repr(transparent)] TransTrans { a: {Trans} = [] } }
rawstruct! { #[repr(packed)] PackedTrans { a: {u8} = [], b: {Trans} = [] } }
rawstruct! { #[repr(transparent)] TransVar { #[speedy(varint)] a: {u64} = [varint] } }
rawstruct! { #[repr(transparent)] TransPrefix { #[speedy(constant_prefix = 9_u8)] a: {u32} = [prefix(&[9])] } }
rawstruct! { #[repr(packed)] PackedVar { #[speedy(varint)] a: {u64} = [varint], b: {u8} = [] } }
rawstruct! { #[repr(packed)] PackedPrefix { a: {u16} = [], #[speedy(constant_prefix = "z")] b: {u8} = [prefix(b"z")] } }
rawstruct! { #[repr(C)] RawPrefix { a: {u16} = [], #[speedy(constant_prefix = 3_u8)] b: {u16} = [prefix(&[3])] } }
rawstruct! { #[repr(C)] #[speedy(unsafe_is_primitive = always)] Forced { a: {u32} = [], b: {u16} = [], c: {i16} = [] } }
rawstruct! { #[repr(C)] #[repr(packed)] #[speedy(unsafe_is_primitive = always)] ForcedPacked { a: {u8} = [], b: {u32} = [], c: {u16} = [] } }
rawstruct! { #[repr(C, align(16))] Aligned { a: {u64} = [], b: {u64} = [] } }
rawstruct! { #[repr(align(8))] AlignedGap { a: {u16} = [], b: {u16} = [] } }
rawstruct! { #[repr(align(4))] AlignedFit { a: {u16} = [], b: {u8} = [], c: {u8} = [] } }
dstruct! { Forceds { a: {Vec<Forced>} = [], b: {[Forced; 3]} = [], c: {Vec<ForcedPacked>} = [], d: {Option<Forced>} = [], e: {ForcedPacked} = [] } }
rawstruct! { #[repr(transparent)] TransDoe { #[speedy(default_on_eof)] a: {u32} = [doe] } }
rawstruct! { #[repr(C)] RawDoe { a: {u16} = [], #[speedy(default_on_eof)] b: {u16} = [doe] } }
rawstruct! { #[repr(C)] RawSkip { a: {u32} = [], #[speedy(skip)] b: {u32} = [skipped] } }
dstruct! { RawAttrs { a: {u8} = [], b: {Vec<TransVar>} = [], c: {[PackedVar; 2]} = [], d: {Vec<TransPrefix>} = [], e: {Vec<PackedPrefix>} = [], f: {[RawPrefix; 2]} = [], g: {Vec<RawSkip>} = [], h: {RawNest} = [] } }

denum! { #[speedy(tag_type = u8, peek_tag)] PeekMin tag U8 peek true {
    #[speedy(tag = 1)] A (1) { t: {u8} = [fixed(Val::U(1))] },
    #[speedy(tag = 2)] B (2) { t: {u8} = [fixed(Val::U(2))] },
} }
denum! { #[speedy(tag_type = u32, peek_tag)] PeekMin32 tag U32 peek true {
    #[speedy(tag = 1)] A (1) { t: {u32} = [fixed(Val::U(1))] },
    #[speedy(tag = 0x02000000)] B (0x02000000) { t: {u32} = [fixed(Val::U(0x02000000))], o: {Option<u8>} = [] },
} }
// Tags that are peeked but never owned: windows that overlap whatever comes next.
denum! { #[speedy(tag_type = u32, peek_tag)] PeekWin tag U32 peek true {
    #[speedy(tag = 0x01010101)] A (0x01010101) { a: {u8} = [] },
    #[speedy(tag = 0x02020202)] B (0x02020202) { a: {u8} = [], b: {u8} = [] },
} }
denum! { #[speedy(tag_type = u8, peek_tag)] PeekUnit tag U8 peek true {
    #[speedy(tag = 1)] A (1) {},
    #[speedy(tag = 2)] B (2) { a: {u16} = [] },
} }
denum! { #[speedy(tag_type = u64_varint, peek_tag)] PeekVarUnit tag Var peek true {
    #[speedy(tag = 1)] A (1) {},
    #[speedy(tag = 2)] B (2) {},
} }
dstruct! { Windows { #[speedy(length_type = u8)] a: {Vec<PeekWin>} = [lt(W::U8)], t: {[u8; 3]} = [] } }
dstruct! { Windows2 { #[speedy(length_type = u8)] a: {Vec<PeekUnit>} = [lt(W::U8)], t: {u8} = [] } }
dstruct! { Windows3 { #[speedy(length_type = u8)] a: {Vec<(PeekUnit, PeekVarUnit)>} = [lt(W::U8)], #[speedy(length_type = u8)] b: {Option<Vec<PeekWin>>} = [lt(W::U8)], t: {u32} = [] } }
dstruct! { DoeSets<'a> {
    #[speedy(length_type = u64, default_on_eof)] a: {BTreeSet<u32>} = [lt(W::U64), doe],
    #[speedy(length_type = u64_varint, default_on_eof)] b: {HashMap<u32, u32>} = [lt(W::Var), doe],
    #[speedy(length_type = u64, default_on_eof)] c: {Cow<'a, HashSet<u16>>} = [lt(W::U64), doe],
    #[speedy(length_type = u64_varint, default_on_eof)] d: {BTreeMap<u64, u64>} = [lt(W::Var), doe],
} }
dstruct! { DoeMaps<'a> {
    #[speedy(length_type = u64_varint, default_on_eof)] a: {Cow<'a, BTreeMap<u16, u16>>} = [lt(W::Var), doe],
    #[speedy(length_type = u64, default_on_eof)] b: {HashSet<u64>} = [lt(W::U64), doe],
    #[speedy(length_type = u64, default_on_eof)] c: {Option<String>} = [lt(W::U64), doe],
    #[speedy(length_type = u64_varint, default_on_eof)] d: {Cow<'a, str>} = [lt(W::Var), doe],
} }
dstruct! { WideSet1 { #[speedy(length_type = u64)] a: {BTreeSet<u32>} = [lt(W::U64)] } }
dstruct! { WideMap1 { #[speedy(length_type = u64_varint)] a: {HashMap<u16, u16>} = [lt(W::Var)] } }
dstruct! { EofSets { a: {u8} = [], #[speedy(length = ..)] b: {Vec<WideSet1>} = [until_eof] } }
dstruct! { EofMaps { a: {u8} = [], #[speedy(length = ..)] b: {Vec<WideMap1>} = [until_eof] } }

denum! { #[speedy(tag_type = u16)] Attrs<'a> tag U16 peek false {
    A (0) { y: {u8} = [] },
    B (1) { #[speedy(constant_prefix = "pre")] x: {u16} = [prefix(b"pre")], #[speedy(default_on_eof)] y: {u32} = [doe] },
    #[speedy(tag = 0xFFFF)] C (0xFFFF) { n: {u8} = [small], #[speedy(length = n)] s: {Cow<'a, str>} = [len_of(0)], #[speedy(length = ..)] rest: {Vec<u16>} = [until_eof] },
} }
/// Tags from discriminants.
#[derive(Readable, Writable, Clone, Copy)]
#[speedy(tag_type = u8)]
pub enum Discr {
    A = 5,
    B,
    C = 0x80,
    D,
}
impl Model for Discr {
    fn schema() -> S {
        S::Enum { tag: W::U8, peek: false, variants: vec![(5, vec![]), (6, vec![]), (0x80, vec![]), (0x81, vec![])] }
    }
    fn to_val(&self) -> Val {
        let raw = unsafe { std::ptr::read_volatile(self as *const Discr as *const u8) };
        match [5u8, 6, 0x80, 0x81].iter().position(|&x| x == raw) {
            Some(n) => Val::E(n as u32, vec![]),
            None => Val::U(raw as u128),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, _) => Discr::A,
            Val::E(1, _) => Discr::B,
            Val::E(2, _) => Discr::C,
            _ => Discr::D,
        }
    }
}
/// Tuple structs, unit structs and struct-level generics.
#[derive(Readable, Writable, Clone)]
pub struct TupleStruct(pub u16, #[speedy(length_type = u8)] pub String, #[speedy(length = t0)] pub Vec<u8>, pub Option<u32>);
impl Model for TupleStruct {
    fn schema() -> S {
        let f = Field::new;
        S::Struct(vec![small(f(u16::schema())), lt(W::U8)(f(String::schema())), len_of(0)(f(Vec::<u8>::schema())), f(Option::<u32>::schema())])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let l = v.l();
        TupleStruct(Model::from_val(&l[0]), Model::from_val(&l[1]), Model::from_val(&l[2]), Model::from_val(&l[3]))
    }
}
#[derive(Readable, Writable, Clone)]
pub struct UnitStruct;
impl Model for UnitStruct {
    fn schema() -> S {
        S::Struct(vec![])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![])
    }
    fn from_val(_: &Val) -> Self {
        UnitStruct
    }
}
#[derive(Readable, Writable, Clone)]
pub struct Gen2<A, B: Clone> {
    pub a: Vec<A>,
    #[speedy(length_type = u8)]
    pub b: Option<Vec<B>>,
    pub c: UnitStruct,
    pub d: A,
}
impl<A: Model, B: Model + Clone> Model for Gen2<A, B> {
    fn schema() -> S {
        let f = Field::new;
        S::Struct(vec![f(Vec::<A>::schema()), lt(W::U8)(f(Option::<Vec<B>>::schema())), f(UnitStruct::schema()), f(A::schema())])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let l = v.l();
        Gen2 { a: Model::from_val(&l[0]), b: Model::from_val(&l[1]), c: UnitStruct, d: Model::from_val(&l[3]) }
    }
}

/// A derived generic composite with a custom type in the middle.
#[derive(Readable, Writable, Clone)]
pub struct Mix<T> {
    pub a: u32,
    pub s: T,
    pub b: Vec<u16>,
    pub c: u64,
    pub d: Option<u32>,
}
impl<T: Model> Model for Mix<T> {
    fn schema() -> S {
        let f = Field::new;
        S::Struct(vec![f(u32::schema()), f(T::schema()), f(Vec::<u16>::schema()), f(u64::schema()), f(Option::<u32>::schema())])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.a.to_val(), self.s.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let l = v.l();
        Mix { a: Model::from_val(&l[0]), s: Model::from_val(&l[1]), b: Model::from_val(&l[2]), c: Model::from_val(&l[3]), d: Model::from_val(&l[4]) }
    }
}

// Layouts the compiler may reorder: with and without padding, in and out of declared order.
rawstruct! { Ord1 { a: {u16} = [], b: {u32} = [], c: {u16} = [] } }
rawstruct! { Ord2 { a: {u8} = [], b: {u16} = [], c: {u8} = [] } }
rawstruct! { Ord3 { a: {u32} = [], b: {u16} = [], c: {u8} = [], d: {u8} = [] } }
rawstruct! { Ord4 { a: {u8} = [], b: {u8} = [], c: {u16} = [], d: {u32} = [] } }
rawstruct! { Ord5 { a: {u8} = [], b: {u64} = [], c: {[u8; 7]} = [] } }
rawstruct! { Ord6 { a: {Ord1} = [], b: {u32} = [], c: {[u16; 2]} = [] } }
rawstruct! { Ord7 { a: {i16} = [], b: {i16} = [], c: {u16} = [] } }
rawstruct! { Ord8 { a: {[u8; 3]} = [], b: {u8} = [], c: {u32} = [] } }
rawstruct! { #[repr(C)] OrdC { a: {u8} = [], b: {u8} = [], c: {u16} = [], d: {[Trans; 2]} = [] } }
rawstruct! { #[repr(C)] OrdGap { a: {u16} = [], b: {u64} = [], c: {u16} = [] } }
rawstruct! { #[repr(C)] OrdTail { a: {u32} = [], b: {u16} = [] } }
dstruct! { Orders {
    a: {Vec<Ord1>} = [], b: {Vec<Ord2>} = [], c: {[Ord3; 2]} = [], d: {Vec<Ord4>} = [],
    #[speedy(length_type = u8)] e: {Vec<Ord5>} = [lt(W::U8)], f: {Box<[Ord6]>} = [], g: {Vec<Ord7>} = [], h: {Vec<Ord8>} = [],
    i: {Vec<OrdC>} = [], j: {[OrdGap; 2]} = [], k: {Vec<OrdTail>} = [], z: {u8} = [],
} }
dstruct! { OrdCow<'a> { z: {u8} = [], a: {Cow<'a, [Ord1]>} = [], #[speedy(length_type = u16)] b: {Cow<'a, [Ord2]>} = [lt(W::U16)], #[speedy(length = ..)] c: {Cow<'a, [OrdC]>} = [until_eof] } }

/// Recursive types with big and small alternatives.
#[derive(Readable, Writable, Clone)]
pub enum Grove {
    Leaf(u64, u64),
    Many(Vec<Grove>),
}
impl Model for Grove {
    fn schema() -> S {
        let f = Field::new;
        S::Enum { tag: W::U32, peek: false, variants: vec![(0, vec![f(S::U(8)), f(S::U(8))]), (1, vec![f(seq(L32, S::Rec(Grove::schema), Kind::Vec, size_of::<Grove>()))])] }
    }
    fn to_val(&self) -> Val {
        match self {
            Grove::Leaf(a, b) => Val::E(0, vec![a.to_val(), b.to_val()]),
            Grove::Many(v) => Val::E(1, vec![v.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, l) => Grove::Leaf(Model::from_val(&l[0]), Model::from_val(&l[1])),
            Val::E(_, l) => Grove::Many(Model::from_val(&l[0])),
            _ => panic!("sim: enum"),
        }
    }
}
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u8)]
pub enum Expr {
    Num(u64),
    Neg(Box<Expr>),
    Add(Box<Expr>, Box<Expr>),
    Name(#[speedy(length_type = u8)] String),
    Opt(Option<Box<Expr>>),
    Pair(Box<(u8, Expr)>),
}
impl Model for Expr {
    fn schema() -> S {
        let f = Field::new;
        let r = || f(S::Rec(Expr::schema));
        S::Enum {
            tag: W::U8,
            peek: false,
            variants: vec![
                (0, vec![f(S::U(8))]),
                (1, vec![r()]),
                (2, vec![r(), r()]),
                (3, vec![lt(W::U8)(f(String::schema()))]),
                (4, vec![f(S::Opt(Box::new(S::Rec(Expr::schema))))]),
                (5, vec![f(S::Tup(vec![S::U(1), S::Rec(Expr::schema)]))]),
            ],
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Expr::Num(a) => Val::E(0, vec![a.to_val()]),
            Expr::Neg(a) => Val::E(1, vec![a.to_val()]),
            Expr::Add(a, b) => Val::E(2, vec![a.to_val(), b.to_val()]),
            Expr::Name(a) => Val::E(3, vec![a.to_val()]),
            Expr::Opt(a) => Val::E(4, vec![a.to_val()]),
            Expr::Pair(a) => Val::E(5, vec![a.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, l) => Expr::Num(Model::from_val(&l[0])),
            Val::E(1, l) => Expr::Neg(Model::from_val(&l[0])),
            Val::E(2, l) => Expr::Add(Model::from_val(&l[0]), Model::from_val(&l[1])),
            Val::E(3, l) => Expr::Name(Model::from_val(&l[0])),
            Val::E(4, l) => Expr::Opt(Model::from_val(&l[0])),
            Val::E(_, l) => Expr::Pair(Model::from_val(&l[0])),
            _ => panic!("sim: enum"),
        }
    }
}
/// Two types that contain each other.
#[derive(Readable, Writable, Clone)]
pub struct Dir {
    pub id: u16,
    pub items: Vec<Item>,
}
#[derive(Readable, Writable, Clone)]
#[speedy(tag_type = u16)]
pub enum Item {
    File { size: u64, #[speedy(length_type = u8)] name: String },
    Sub(Dir),
    Gone,
}
impl Model for Dir {
    fn schema() -> S {
        let f = Field::new;
        S::Struct(vec![f(S::U(2)), f(seq(L32, S::Rec(Item::schema), Kind::Vec, size_of::<Item>()))])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.id.to_val(), self.items.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Dir { id: Model::from_val(&v.l()[0]), items: Model::from_val(&v.l()[1]) }
    }
}
impl Model for Item {
    fn schema() -> S {
        let f = Field::new;
        S::Enum { tag: W::U16, peek: false, variants: vec![(0, vec![f(S::U(8)), lt(W::U8)(f(String::schema()))]), (1, vec![f(S::Rec(Dir::schema))]), (2, vec![])] }
    }
    fn to_val(&self) -> Val {
        match self {
            Item::File { size, name } => Val::E(0, vec![size.to_val(), name.to_val()]),
            Item::Sub(d) => Val::E(1, vec![d.to_val()]),
            Item::Gone => Val::E(2, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::E(0, l) => Item::File { size: Model::from_val(&l[0]), name: Model::from_val(&l[1]) },
            Val::E(1, l) => Item::Sub(Model::from_val(&l[0])),
            Val::E(_, _) => Item::Gone,
            _ => panic!("sim: enum"),
        }
    }
}
// Smallest sizes: variants whose encodings differ a lot, nested where the smallest size is multiplied or compared.
denum! { #[speedy(tag_type = u8)] Lopsided tag U8 peek false {
    A (0) { a: {u128} = [], b: {[u64; 4]} = [] },
    B (1) { #[speedy(length_type = u8)] v: {Vec<u64>} = [lt(W::U8)] },
    C (2) { #[speedy(default_on_eof)] x: {u8} = [doe] },
} }
denum! { #[speedy(tag_type = u64)] Sized3 tag U64 peek false {
    A (0) { a: {u128} = [] },
    B (1) { a: {Option<u128>} = [], b: {Result<u64, u8>} = [] },
    #[speedy(tag = 77)] C (77) { #[speedy(constant_prefix = "prefix")] a: {u8} = [prefix(b"prefix")] },
} }
dstruct! { Minima {
    #[speedy(length_type = u8)] a: {Vec<Sized3>} = [lt(W::U8)],
    b: {[Result<u64, Option<u8>>; 2]} = [],
    c: {Option<Sized3>} = [],
    #[speedy(length_type = u16)] d: {HashMap<u8, Sized3>} = [lt(W::U16)],
    e: {BTreeMap<u16, Result<u8, u64>>} = [],
    f: {Result<Sized3, [u16; 9]>} = [],
} }
dstruct! { MinRecur { a: {u8} = [], b: {Grove} = [], c: {Result<u64, Expr>} = [], d: {[Option<Expr>; 2]} = [] } }
dstruct! { Prefixed2 {
    #[speedy(constant_prefix = -2_i8)] a: {u8} = [prefix(&[254])],
    #[speedy(constant_prefix = 'ß')] b: {String} = [prefix("ß".as_bytes())],
    #[speedy(constant_prefix = 'x')] c: {Option<u8>} = [prefix(b"x")],
} }
denum! { #[speedy(tag_type = u8)] Prefixed3 tag U8 peek false {
    A (0) { #[speedy(constant_prefix = "A")] v: {Vec<u8>} = [prefix(b"A")], #[speedy(constant_prefix = "")] w: {u8} = [] },
    B (1) { #[speedy(constant_prefix = false)] v: {u32} = [prefix(&[0])], #[speedy(varint)] w: {u64} = [varint] },
} }
