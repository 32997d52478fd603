//! One workload for every feature set of the library: values are encoded into buffers and decoded from them, with
//! corrupted and cut inputs and buffers which are too short. Each run ends in a text which must not depend on the
//! features the library was built with.
#![allow(unknown_lints, dead_code, unused)]
use core::fmt::Debug;
use core::num::*;
use core::sync::atomic::*;
use speedy::{Context, Endianness, IsEof, Readable, Reader, Writable, Writer};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn new(seed: u64, i: u64) -> Self {
        let mut r = Rng(seed ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93));
        r.next();
        r
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
/// Every decision of a run is one draw, recorded; a draw of 0 is the simplest choice.
struct Tape {
    rng: Option<Rng>,
    old: Vec<u32>,
    rec: Vec<u32>,
}
impl Tape {
    fn below(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => (r.next() % n as u64) as u32,
            None => self.old.get(self.rec.len()).copied().unwrap_or(0) % n,
        };
        self.rec.push(v);
        v
    }
    fn chance(&mut self, a: u32, b: u32) -> bool {
        self.below(b) >= b - a
    }
    fn int(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        mask & match self.below(5) {
            0 => self.below(4) as u128,
            1 => ((1 + self.below(255)) as u128) << (8 * self.below(bits / 8)),
            2 => mask - self.below(3) as u128,
            3 => {
                let b = self.below(bits);
                (1u128 << b).wrapping_sub(self.below(2) as u128)
            }
            _ => (0..4).fold(0u128, |a, _| a << 32 | self.below(u32::MAX) as u128),
        }
    }
    fn len(&mut self) -> usize {
        let c = match self.below(8) {
            0..=5 => self.below(6),
            6 => self.below(40),
            _ => [63, 64, 65, 127, 128, 129, 255, 256, 300][self.below(9) as usize],
        };
        c as usize
    }
}
/// A value made of draws. Borrowed parts live as long as the process.
trait Arb: Sized {
    fn arb(t: &mut Tape) -> Self;
}
macro_rules! ints { ($($t:ident)*) => { $(impl Arb for $t { fn arb(t: &mut Tape) -> Self { t.int($t::BITS) as $t } })* } }
ints! { u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 }
macro_rules! via { ($($t:ty, $u:ty, |$x:ident| $e:expr;)*) => { $(impl Arb for $t { fn arb(t: &mut Tape) -> Self { let $x = <$u>::arb(t); $e } })* } }
via! {
    usize, u32, |x| x as usize;
    f32, u32, |x| f32::from_bits(if x & 0x7f80_0000 == 0x7f80_0000 { 1 } else { x });
    f64, u64, |x| f64::from_bits(if x & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 { 1 } else { x });
    bool, u8, |x| x & 1 == 1;
    char, u32, |x| char::from_u32(x % 0x11_0000).unwrap_or('A');
    (), u8, |_x| ();
    NonZeroU8, u8, |x| NonZeroU8::new(x.max(1)).unwrap();
    NonZeroU16, u16, |x| NonZeroU16::new(x.max(1)).unwrap();
    NonZeroU32, u32, |x| NonZeroU32::new(x.max(1)).unwrap();
    NonZeroU64, u64, |x| NonZeroU64::new(x.max(1)).unwrap();
    NonZeroI8, i8, |x| NonZeroI8::new(x | 1).unwrap();
    NonZeroI16, i16, |x| NonZeroI16::new(x | 1).unwrap();
    NonZeroI32, i32, |x| NonZeroI32::new(x | 1).unwrap();
    NonZeroI64, i64, |x| NonZeroI64::new(x | 1).unwrap();
    AtomicU8, u8, |x| x.into();
    AtomicI16, i16, |x| x.into();
    AtomicU32, u32, |x| x.into();
    AtomicI64, i64, |x| x.into();
    core::net::Ipv4Addr, u32, |x| x.into();
    core::net::Ipv6Addr, u128, |x| x.into();
    core::net::IpAddr, (bool, u128), |x| if x.0 { core::net::Ipv4Addr::from(x.1 as u32).into() } else { core::net::Ipv6Addr::from(x.1).into() };
    core::time::Duration, (u64, u32), |x| core::time::Duration::new(x.0, x.1 % 1_000_000_000);
    Endianness, bool, |x| if x { Endianness::BigEndian } else { Endianness::LittleEndian };
    glam::Vec3, (f32, f32, f32), |x| glam::Vec3::new(x.0, x.1, x.2);
    glam::Quat, (f32, f32, f32, f32), |x| glam::Quat::from_xyzw(x.0, x.1, x.2, x.3);
    glam::Mat3, ([f32; 9], ), |x| glam::Mat3::from_cols_array(&x.0);
    uuid::Uuid, [u8; 16], |x| uuid::Uuid::from_bytes(x);
    chrono::DateTime<chrono::Utc>, (i32, u32), |x| chrono::DateTime::from_timestamp(x.0 as i64, x.1 % 1_000_000_000).unwrap();
    &'static str, Owned<char>, |x| Box::leak(x.0.into_iter().collect::<String>().into_boxed_str());
    &'static [u8], Owned<u8>, |x| Box::leak(x.0.into_boxed_slice());
    &'static [i8], Owned<i8>, |x| Box::leak(x.0.into_boxed_slice());
    &'static [u8; 5], [u8; 5], |x| Box::leak(Box::new(x));
}
struct Owned<T>(Vec<T>);
impl<T: Arb> Arb for Owned<T> {
    fn arb(t: &mut Tape) -> Self {
        let n = t.len();
        Owned((0..n).map(|_| T::arb(t)).collect())
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(t: &mut Tape) -> Self {
        t.chance(2, 3).then(|| T::arb(t))
    }
}
impl<T: Arb, E: Arb> Arb for Result<T, E> {
    fn arb(t: &mut Tape) -> Self {
        if t.chance(1, 2) {
            Err(E::arb(t))
        } else {
            Ok(T::arb(t))
        }
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(t: &mut Tape) -> Self {
        core::array::from_fn(|_| T::arb(t))
    }
}
impl<T: Arb> Arb for core::ops::Range<T> {
    fn arb(t: &mut Tape) -> Self {
        T::arb(t)..T::arb(t)
    }
}
impl<T: Arb> Arb for core::ops::RangeInclusive<T> {
    fn arb(t: &mut Tape) -> Self {
        T::arb(t)..=T::arb(t)
    }
}
macro_rules! tuples { ($(($($t:ident)*))*) => { $(impl<$($t: Arb),*> Arb for ($($t,)*) { fn arb(t: &mut Tape) -> Self { ($($t::arb(t),)*) } })* } }
tuples! { (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) }
macro_rules! derived {
    ($(#[$m:meta])* struct $n:ident { $($(#[$a:meta])* $f:ident : [$($t:tt)*],)* }) => {
        #[derive(Readable, Writable, Debug)]
        $(#[$m])*
        pub struct $n { $($(#[$a])* $f: $($t)*,)* }
        impl Arb for $n { fn arb(t: &mut Tape) -> Self { $n { $($f: Arb::arb(t),)* } } }
    };
    ($(#[$m:meta])* struct $n:ident <'a> { $($(#[$a:meta])* $f:ident : [$($t:tt)*],)* }) => {
        #[derive(Readable, Writable, Debug)]
        $(#[$m])*
        pub struct $n<'a> { $($(#[$a])* $f: $($t)*,)* }
        impl Arb for $n<'static> { fn arb(t: &mut Tape) -> Self { $n { $($f: Arb::arb(t),)* } } }
    };
}
derived! { struct Plain { a: [u8], b: [u32], c: [i64], d: [[u16; 3]], e: [Option<u64>], f: [()], } }
#[cfg(feature = "alloc")]
derived! { struct Lens<'a> { #[speedy(length_type = u8)] a: [&'a str], #[speedy(length_type = u16)] b: [&'a [u8]], #[speedy(length_type = u64_varint)] c: [&'a str], #[speedy(length_type = u7)] d: [&'a [i8]], e: [u8], } }
#[cfg(feature = "alloc")]
derived! { struct Pref<'a> { #[speedy(constant_prefix = b"\x01ab")] a: [u16], #[speedy(varint)] b: [u64], #[speedy(varint)] c: [u64], #[speedy(length = (b % 3) as usize)] d: [&'a [u8]], #[speedy(length_type = u32)] e: [Option<&'a str>], } }
#[cfg(feature = "alloc")]
derived! { struct Tail<'a> { a: [u16], #[speedy(default_on_eof)] b: [u32], #[speedy(default_on_eof)] c: [Option<u8>], #[speedy(default_on_eof, length_type = u8)] d: [&'a [u8]], #[speedy(default_on_eof)] e: [Plainish], } }
derived! { #[derive(Default)] struct Plainish { a: [u8], b: [u16], } }
derived! { #[derive(Clone, Copy, Default)] #[repr(C)] struct Raw { a: [u32], b: [u16], c: [u8], d: [u8], } }
derived! { #[derive(Clone, Copy)] #[repr(transparent)] struct Trans { a: [u64], } }
#[derive(Readable, Writable, Debug)]
enum Plan<'a> {
    A,
    B(u8, u32),
    C { a: [Raw; 2], #[speedy(length_type = u8)] b: &'a str },
}
impl Arb for Plan<'static> {
    fn arb(t: &mut Tape) -> Self {
        match t.below(3) {
            0 => Plan::A,
            1 => Plan::B(Arb::arb(t), Arb::arb(t)),
            _ => Plan::C { a: Arb::arb(t), b: Arb::arb(t) },
        }
    }
}
#[derive(Readable, Writable, Debug)]
#[speedy(tag_type = u16)]
enum Tags {
    #[speedy(tag = 3)]
    A(Trans),
    #[speedy(tag = 0x1234)]
    B { x: Option<NonZeroU16>, y: char },
    #[speedy(tag = 0xffff)]
    C,
}
impl Arb for Tags {
    fn arb(t: &mut Tape) -> Self {
        match t.below(3) {
            0 => Tags::A(Arb::arb(t)),
            1 => Tags::B { x: Arb::arb(t), y: Arb::arb(t) },
            _ => Tags::C,
        }
    }
}
#[cfg(feature = "alloc")]
#[derive(Readable, Writable, Debug)]
#[speedy(tag_type = u8, peek_tag)]
enum Peeks {
    #[speedy(tag = 3)]
    A(#[speedy(constant_prefix = 3_u8)] u32),
    #[speedy(tag = 4)]
    B(#[speedy(constant_prefix = 4_u8)] bool, #[speedy(varint)] u64),
}
#[cfg(feature = "alloc")]
impl Arb for Peeks {
    fn arb(t: &mut Tape) -> Self {
        match t.below(2) {
            0 => Peeks::A(Arb::arb(t)),
            _ => Peeks::B(Arb::arb(t), Arb::arb(t)),
        }
    }
}
/// Uses the operations of a reader and a writer directly.
#[derive(Debug)]
struct Ops {
    log: Vec<String>,
    plan: u8,
}
impl Arb for Ops {
    fn arb(t: &mut Tape) -> Self {
        Ops { log: Vec::new(), plan: t.below(24) as u8 }
    }
}
impl<'a, C: Context> Readable<'a, C> for Ops {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        let plan = r.read_u8()?;
        let mut log = Vec::new();
        macro_rules! l { ($e:expr) => { log.push(format!("{:?}", $e)) } }
        if plan & 1 != 0 {
            l!(r.peek_u8()?);
            l!(r.peek_u16()?);
            l!(r.read_u16()?);
        }
        if plan & 2 != 0 {
            l!(r.peek_u64_varint()?);
            l!(r.read_u64_varint()?);
        }
        if plan & 4 != 0 {
            r.skip_bytes(3)?;
            l!(r.peek_u64()?);
            l!(r.read_i64()?);
        }
        if plan & 8 != 0 {
            l!(r.can_read_at_least(4));
            l!(r.read_u128()?);
            let mut b = [0u32; 3];
            for x in &mut b {
                *x = r.read_u32()?;
            }
            l!(b);
            l!(r.read_bytes_borrowed(2).map(|x| x.map(|x| x.to_vec()).is_ok()));
        }
        if plan & 16 != 0 {
            l!(r.read_f32()?.to_bits());
            l!(r.peek_f64()?.to_bits());
        }
        l!(r.endianness());
        Ok(Ops { log, plan })
    }
}
impl<C: Context> Writable<C> for Ops {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        w.write_u8(self.plan)?;
        if self.plan & 1 != 0 {
            w.write_u16(0x0102)?;
        }
        if self.plan & 2 != 0 {
            w.write_u64_varint(0x1234_5678 >> self.plan)?;
        }
        if self.plan & 4 != 0 {
            w.write_bytes(&[1, 2, 3])?;
            w.write_i64(-5)?;
        }
        if self.plan & 8 != 0 {
            w.write_u128(77)?;
            w.write_slice(&[1u32, 2, 3])?;
            w.write_u16(1)?;
        }
        if self.plan & 16 != 0 {
            w.write_f32(1.5)?;
            w.write_f64(-2.5)?;
        }
        Ok(())
    }
}
#[cfg(feature = "alloc")]
mod owned {
    pub use std::borrow::Cow;
    pub use std::collections::{BTreeMap, BTreeSet};
    use super::*;
    impl Arb for String {
        fn arb(t: &mut Tape) -> Self {
            Owned::<char>::arb(t).0.into_iter().collect()
        }
    }
    impl<T: Arb> Arb for Vec<T> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0
        }
    }
    impl<T: Arb> Arb for Box<T> {
        fn arb(t: &mut Tape) -> Self {
            Box::new(T::arb(t))
        }
    }
    impl<T: Arb> Arb for Box<[T]> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0.into()
        }
    }
    impl Arb for Box<str> {
        fn arb(t: &mut Tape) -> Self {
            String::arb(t).into()
        }
    }
    impl Arb for Cow<'static, str> {
        fn arb(t: &mut Tape) -> Self {
            String::arb(t).into()
        }
    }
    impl<T: Arb + Clone> Arb for Cow<'static, [T]> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0.into()
        }
    }
    impl<K: Arb + Ord, V: Arb> Arb for BTreeMap<K, V> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0.into_iter().collect()
        }
    }
    impl<K: Arb + Ord> Arb for BTreeSet<K> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0.into_iter().collect()
        }
    }
    impl<T: Arb> Arb for smallvec::SmallVec<[T; 4]> {
        fn arb(t: &mut Tape) -> Self {
            Owned::arb(t).0.into_iter().collect()
        }
    }
    derived! { struct Held<'a> { #[speedy(length_type = u16)] a: [Vec<u32>], b: [Cow<'a, str>], #[speedy(length_type = u8)] c: [Option<String>], d: [Vec<Option<Box<u16>>>], #[speedy(length_type = u64_varint)] e: [BTreeMap<u8, u16>], f: [Cow<'a, [u64]>], } }
    derived! { struct Rest { a: [u8], #[speedy(length = ..)] b: [Vec<u16>], } }
    derived! { struct RestStr<'a> { a: [u8], #[speedy(length = ..)] b: [Cow<'a, str>], } }
    derived! { #[derive(Default)] struct Late { a: [u8], #[speedy(default_on_eof)] b: [Vec<u32>], #[speedy(default_on_eof)] c: [String], } }
}
#[cfg(feature = "alloc")]
use owned::*;

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
struct Encs {
    need: Result<usize, speedy::Error>,
    vec: Option<Result<Vec<u8>, speedy::Error>>,
}
fn fail(e: &speedy::Error) -> String {
    format!("error, end of input: {}", e.is_eof())
}
fn caught<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// One value of `T`: encoded in all ways, and an input derived from it decoded in all ways.
macro_rules! one {
    ($t:expr, $out:expr, $ty:ty, $named:ty) => {{
        let t: &mut Tape = $t;
        let out: &mut String = $out;
        let big = t.chance(1, 2);
        let e = if big { Endianness::BigEndian } else { Endianness::LittleEndian };
        let v = <$ty>::arb(t);
        writeln!(out, "{} {:?} {:?}", stringify!($named), e, v).unwrap();
        let need = caught(|| Writable::<Endianness>::bytes_needed(&v));
        writeln!(out, "needs {:?}", need.as_ref().map(|r| r.as_ref().map_err(fail))).unwrap();
        let mut room = vec![0x5Cu8; 1 << 16];
        let whole = caught(|| v.write_to_buffer_with_ctx(e, &mut room));
        let n = match &need {
            Some(Ok(n)) if *n <= room.len() => *n,
            _ => 0,
        };
        writeln!(out, "encoded {:?} {}", whole.as_ref().map(|r| r.as_ref().map_err(fail)), hex(&room[..n + 2])).unwrap();
        let short = t.below(n as u32 + 3) as usize;
        let mut b = vec![0xA3u8; short];
        let r = caught(|| v.write_to_buffer_with_ctx(e, &mut b));
        writeln!(out, "into {} bytes {:?} {}", short, r.as_ref().map(|r| r.as_ref().map_err(fail)), match r { Some(Ok(())) => hex(&b), _ => String::new() }).unwrap();
        #[cfg(feature = "alloc")]
        {
            let r = caught(|| v.write_to_vec_with_ctx(e));
            let (x, y) = (r.as_ref().map(|r| r.is_ok()), whole.as_ref().map(|r| r.is_ok()));
            if x != y || matches!(&r, Some(Ok(b)) if b[..] != room[..n]) {
                writeln!(out, "as a vector {:?}", r.map(|r| r.map(|b| hex(&b)))).unwrap();
            }
        }
        let mut data = room[..n].to_vec();
        for _ in 0..t.below(4).saturating_sub(1) {
            match t.below(4) {
                0 => data.truncate(t.below(n as u32 + 1) as usize),
                1 if !data.is_empty() => {
                    let k = t.below(data.len() as u32) as usize;
                    data[k] ^= 1 << t.below(8);
                }
                2 if !data.is_empty() => {
                    let k = t.below(data.len() as u32) as usize;
                    data[k] = [0xff, 0, 0x80, 0x7f][t.below(4) as usize];
                }
                _ => data.extend((0..t.below(9)).map(|x| x as u8)),
            }
        }
        writeln!(out, "input {}", hex(&data)).unwrap();
        let skip = t.below(9) as usize;
        // Somewhere in an aligned room, so that alignment is the same everywhere.
        let mut held = vec![0u128; data.len() / 16 + 3];
        let held = unsafe { core::slice::from_raw_parts_mut(held.as_mut_ptr() as *mut u8, held.len() * 16) };
        held[skip..skip + data.len()].copy_from_slice(&data);
        let data = &held[skip..skip + data.len()];
        let r = caught(|| <$named as Readable<Endianness>>::read_from_buffer_with_ctx(e, data));
        writeln!(out, "decoded {:?}", r.as_ref().map(|r| r.as_ref().map_err(fail))).unwrap();
        let r = caught(|| <$named as Readable<Endianness>>::read_with_length_from_buffer_with_ctx(e, data));
        writeln!(out, "decoded {:?}", r.as_ref().map(|(r, n)| (r.as_ref().map_err(fail), r.is_ok().then_some(n)))).unwrap();
        let r = caught(|| <$named as Readable<Endianness>>::read_from_buffer_copying_data_with_ctx(e, data));
        writeln!(out, "copied {:?}", r.as_ref().map(|r| r.as_ref().map_err(fail))).unwrap();
        let r = caught(|| <$named as Readable<Endianness>>::read_with_length_from_buffer_copying_data_with_ctx(e, data));
        writeln!(out, "copied {:?}", r.as_ref().map(|(r, n)| (r.as_ref().map_err(fail), r.is_ok().then_some(n)))).unwrap();
    }};
}
const CORE: u32 = 36;
const MORE: u32 = 30;
fn run(t: &mut Tape) -> Option<String> {
    let mut o = String::new();
    let k = t.below(CORE + MORE);
    macro_rules! go { ($($ty:ty),* $(,)?) => {{
        let mut at = 0u32;
        $( if at == k { one!(t, &mut o, $ty, $ty); } at += 1; )*
        at
    }} }
    if k < CORE {
        let n = go!(
            u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, (f32, f64, usize), (bool, char, ()), [u16; 4], [u8; 7], [u64; 3],
            Option<u32>, Result<u8, u64>, (NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64), (NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64),
            (AtomicU8, AtomicI16, AtomicU32, AtomicI64), (core::net::Ipv4Addr, core::net::Ipv6Addr, core::net::IpAddr),
            core::time::Duration, Endianness, (glam::Vec3, glam::Quat), glam::Mat3,
            uuid::Uuid, chrono::DateTime<chrono::Utc>, &str, (&[u8; 5], u8), core::ops::Range<u16>, core::ops::RangeInclusive<i32>,
            Plain, (Raw, [Raw; 3], Trans), Plan, Tags, Ops,
        );
        assert_eq!(n, CORE);
        return Some(o);
    }
    #[cfg(feature = "alloc")]
    {
        let k = k - CORE;
        let n = go!(
            String, Vec<u8>, Vec<u16>, Vec<u64>, Vec<String>, Vec<Vec<i32>>, Box<str>, Box<[u32]>, Box<Plain>, Cow<str>, Cow<[u8]>, Cow<[u32]>,
            BTreeMap<u16, String>, BTreeSet<u32>, smallvec::SmallVec<[u16; 4]>, Held, (u8, Rest), RestStr, Late, Vec<Raw>, Vec<Tags>,
            Option<Vec<bool>>, Vec<(u8, char)>, (Vec<f32>, Vec<f64>, Vec<u128>), &[u8], (&[i8], &[u8; 5], u8), Lens, Pref, Tail, Peeks,
        );
        assert_eq!(n, MORE);
        return Some(o);
    }
    None
}
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false) {
            eprintln!("sim: {}", i);
        }
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut text = String::new();
    match a.first().map(|x| x.as_str()) {
        // `work SEED FIRST RUNS`: a line per run.
        Some("work") => {
            let n: Vec<u64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
            for i in n[1]..n[1] + n[2] {
                let mut t = Tape { rng: Some(Rng::new(n[0], i)), old: vec![], rec: vec![] };
                match run(&mut t) {
                    Some(s) => writeln!(text, "{:016x}", fnv(&s)).unwrap(),
                    None => text.push_str("-\n"),
                }
            }
        }
        // `tape SEED INDEX`: its draws.
        Some("tape") => {
            let mut t = Tape { rng: Some(Rng::new(a[1].parse().unwrap(), a[2].parse().unwrap())), old: vec![], rec: vec![] };
            run(&mut t);
            text = t.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        }
        // `try FILE`: each line is a tape; a line per run, or the whole text with `full`.
        Some("try") => {
            for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
                let mut t = Tape { rng: None, old: l.split_whitespace().map(|x| x.parse().unwrap()).collect(), rec: vec![] };
                let s = run(&mut t);
                match (s, a.len() > 2) {
                    (Some(s), true) => text.push_str(&s),
                    (Some(s), false) => writeln!(text, "{:016x}", fnv(&s)).unwrap(),
                    (None, _) => text.push_str("-\n"),
                }
            }
        }
        _ => std::process::exit(2),
    }
    print!("{}", text);
}
