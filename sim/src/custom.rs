//! User code run inside the library: types with hand-written decoding and encoding, scripted against the reader and
//! writer interfaces, and elements that watch their own lifetime.
use crate::api::{SimCtx, SimErr};
use crate::base::*;
use crate::model::*;
use crate::types::*;
use speedy::{Endianness, Readable, Reader, Writable, Writer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::mem::MaybeUninit;

fn custom<E: From<speedy::Error>>(s: &str) -> E {
    E::from(speedy::Error::custom(s.to_string()))
}

/// One byte that switches the byte order of everything after it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Switch(pub bool);
impl<'a> Readable<'a, SimCtx> for Switch {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        let b = r.read_u8()?;
        if b > 1 {
            return Err(custom("bad switch"));
        }
        r.context_mut().big = b == 1;
        crate::alloc::unscope(|| r.context_mut().trail.push(b as u32));
        Ok(Switch(b == 1))
    }
    fn minimum_bytes_needed() -> usize {
        1
    }
}
impl Writable<SimCtx> for Switch {
    fn write_to<T: ?Sized + Writer<SimCtx>>(&self, w: &mut T) -> Result<(), SimErr> {
        w.write_u8(self.0 as u8)?;
        w.context_mut().big = self.0;
        crate::alloc::unscope(|| w.context_mut().trail.push(self.0 as u32));
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, SimErr> {
        Ok(1)
    }
}
impl Model for Switch {
    fn schema() -> S {
        S::SetEndian
    }
    fn to_val(&self) -> Val {
        Val::U(self.0 as u128)
    }
    fn from_val(v: &Val) -> Self {
        Switch(v.u() == 1)
    }
}
/// Skips N bytes of padding.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SkipN<const N: usize>;
impl<'a, C: speedy::Context, const N: usize> Readable<'a, C> for SkipN<N> {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        r.skip_bytes(N)?;
        Ok(SkipN)
    }
    fn minimum_bytes_needed() -> usize {
        N
    }
}
impl<C: speedy::Context, const N: usize> Writable<C> for SkipN<N> {
    fn write_to<T: ?Sized + Writer<C>>(&self, w: &mut T) -> Result<(), C::Error> {
        w.write_bytes(&[0; N])
    }
}
impl<const N: usize> Model for SkipN<N> {
    fn schema() -> S {
        S::Skip(N)
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        SkipN
    }
}
/// A composite written by hand that knows its size, with context-changing parts in it.
#[derive(Clone, Debug)]
pub struct Hand<T>(pub u16, pub T, pub u32, pub Switch, pub u64);
impl<'a, T: Readable<'a, SimCtx>> Readable<'a, SimCtx> for Hand<T> {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        Ok(Hand(r.read_u16()?, r.read_value()?, r.read_u32()?, r.read_value()?, r.read_u64()?))
    }
    fn minimum_bytes_needed() -> usize {
        15 + T::minimum_bytes_needed()
    }
}
impl<T: Writable<SimCtx>> Writable<SimCtx> for Hand<T> {
    fn write_to<W: ?Sized + Writer<SimCtx>>(&self, w: &mut W) -> Result<(), SimErr> {
        w.write_u16(self.0)?;
        w.write_value(&self.1)?;
        w.write_u32(self.2)?;
        w.write_value(&self.3)?;
        w.write_u64(self.4)
    }
    fn bytes_needed(&self) -> Result<usize, SimErr> {
        Ok(15 + self.1.bytes_needed()?)
    }
}
impl<T: Model> Model for Hand<T> {
    fn schema() -> S {
        S::Tup(vec![S::U(2), T::schema(), S::U(4), S::SetEndian, S::U(8)])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let l = v.l();
        Hand(Model::from_val(&l[0]), Model::from_val(&l[1]), Model::from_val(&l[2]), Model::from_val(&l[3]), Model::from_val(&l[4]))
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Scripts against the reader.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    U128,
    I128,
    F32,
    F64,
}
pub const NUMS: &[Num] = &[Num::U8, Num::I8, Num::U16, Num::I16, Num::U32, Num::I32, Num::U64, Num::I64, Num::U128, Num::I128, Num::F32, Num::F64];
impl Num {
    pub fn schema(self) -> S {
        match self {
            Num::U8 => S::U(1),
            Num::I8 => S::I(1),
            Num::U16 => S::U(2),
            Num::I16 => S::I(2),
            Num::U32 => S::U(4),
            Num::I32 => S::I(4),
            Num::U64 => S::U(8),
            Num::I64 => S::I(8),
            Num::U128 => S::U(16),
            Num::I128 => S::I(16),
            Num::F32 => S::F(4),
            Num::F64 => S::F(8),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Elem {
    U8,
    U16,
    U32,
    I64,
    Bool,
    Str,
    Pair,
    Plain,
    RawC,
    Char,
    Opt,
}
pub const ELEMS: &[Elem] = &[Elem::U8, Elem::U16, Elem::U32, Elem::I64, Elem::Bool, Elem::Str, Elem::Pair, Elem::Plain, Elem::RawC, Elem::Char, Elem::Opt];
impl Elem {
    pub fn schema(self) -> S {
        match self {
            Elem::U8 => u8::schema(),
            Elem::U16 => u16::schema(),
            Elem::U32 => u32::schema(),
            Elem::I64 => i64::schema(),
            Elem::Bool => bool::schema(),
            Elem::Str => String::schema(),
            Elem::Pair => <(u8, u16)>::schema(),
            Elem::Plain => Plain::schema(),
            Elem::RawC => RawC::schema(),
            Elem::Char => char::schema(),
            Elem::Opt => Option::<u16>::schema(),
        }
    }
}
macro_rules! by_elem {
    ($e:expr, $t:ident => $body:expr) => {
        match $e {
            Elem::U8 => { type $t = u8; $body }
            Elem::U16 => { type $t = u16; $body }
            Elem::U32 => { type $t = u32; $body }
            Elem::I64 => { type $t = i64; $body }
            Elem::Bool => { type $t = bool; $body }
            Elem::Str => { type $t = String; $body }
            Elem::Pair => { type $t = (u8, u16); $body }
            Elem::Plain => { type $t = Plain; $body }
            Elem::RawC => { type $t = RawC; $body }
            Elem::Char => { type $t = char; $body }
            Elem::Opt => { type $t = Option<u16>; $body }
        }
    };
}
/// Composite values read and written through `read_value`/`write_value`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comp {
    Nested,
    LenTypes,
    Mixed,
    Peek8,
    PeekVar,
    Varints,
    VecSwitch,
    RawHolder,
    Cow32,
    Map,
    Doe,
}
pub const COMPS: &[Comp] =
    &[Comp::Nested, Comp::LenTypes, Comp::Mixed, Comp::Peek8, Comp::PeekVar, Comp::Varints, Comp::VecSwitch, Comp::RawHolder, Comp::Cow32, Comp::Map, Comp::Doe];
macro_rules! by_comp {
    ($e:expr, $t:ident => $body:expr) => {
        match $e {
            Comp::Nested => { type $t<'a> = Nested; $body }
            Comp::LenTypes => { type $t<'a> = LenTypes; $body }
            Comp::Mixed => { type $t<'a> = Mixed; $body }
            Comp::Peek8 => { type $t<'a> = Peek8; $body }
            Comp::PeekVar => { type $t<'a> = PeekVar; $body }
            Comp::Varints => { type $t<'a> = Varints; $body }
            Comp::VecSwitch => { type $t<'a> = Vec<(Switch, u32)>; $body }
            Comp::RawHolder => { type $t<'a> = RawHolder; $body }
            Comp::Cow32 => { type $t<'a> = Cow<'a, [u32]>; $body }
            Comp::Map => { type $t<'a> = BTreeMap<u16, u32>; $body }
            Comp::Doe => { type $t<'a> = Doe; $body }
        }
    };
}
impl Comp {
    pub fn schema(self) -> S {
        by_comp!(self, T => <T as Model>::schema())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum ROp {
    Read(Num),
    Peek(Num),
    Bytes(usize),
    PeekBytes(usize),
    Ptr(usize),
    PeekPtr(usize),
    Skip(usize),
    Borrow(usize),
    BorrowR(usize),
    BorrowEof,
    Vec(Elem, usize),
    Cow(Elem, usize),
    Str(usize),
    Set(Elem, usize),
    Boxed(Elem, usize),
    /// HashMap<u8, u8> / BTreeMap<u16, RawC> / HashMap<u8, String>.
    Kv(u8, usize),
    VecEof(Elem),
    CowEof(Elem),
    SetEof(Elem),
    Varint,
    PeekVarint,
    /// Plain bytes turned into numbers by the helpers of the byte order in force: one by one, in place, as a slice.
    Conv(Num, usize, u8),
    Value(Comp),
    Can(usize),
    Ctx,
    SetBig(bool),
    Trail(u32),
    Fail,
}
#[derive(Clone, Debug, PartialEq)]
pub enum OpRes {
    V(Val),
    /// Whether it was an end of input.
    E(bool),
    /// The operation is not offered by this reader.
    None,
    Ctx(bool, u32),
}
pub struct Script {
    /// One list of operations per occurrence of `Run` in the decoded type, taken in turn.
    pub segs: Vec<Vec<ROp>>,
    pub next: usize,
    pub out: Vec<Vec<OpRes>>,
}
static mut SCRIPT: Option<Script> = None;
pub fn set_script(segs: Vec<Vec<ROp>>) {
    unsafe { SCRIPT = Some(Script { segs, next: 0, out: vec![] }) }
}
pub fn take_script() -> Vec<Vec<OpRes>> {
    unsafe { SCRIPT.take().map(|s| s.out).unwrap_or_default() }
}
fn script() -> &'static mut Script {
    unsafe { SCRIPT.as_mut().expect("sim: no script") }
}
/// Runs the next segment of the script against whatever reader it is decoded from.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Run;
impl Model for Run {
    fn schema() -> S {
        S::Tup(vec![])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![])
    }
    fn from_val(_: &Val) -> Self {
        Run
    }
}
fn er(e: SimErr) -> OpRes {
    OpRes::E(crate::alloc::unscope(|| crate::api::classify(e).is_end_of_input()))
}
fn num<'a, R: Reader<'a, SimCtx>>(r: &mut R, n: Num) -> Result<Val, SimErr> {
    Ok(match n {
        Num::U8 => r.read_u8()?.to_val(),
        Num::I8 => r.read_i8()?.to_val(),
        Num::U16 => r.read_u16()?.to_val(),
        Num::I16 => r.read_i16()?.to_val(),
        Num::U32 => r.read_u32()?.to_val(),
        Num::I32 => r.read_i32()?.to_val(),
        Num::U64 => r.read_u64()?.to_val(),
        Num::I64 => r.read_i64()?.to_val(),
        Num::U128 => r.read_u128()?.to_val(),
        Num::I128 => r.read_i128()?.to_val(),
        Num::F32 => r.read_f32()?.to_val(),
        Num::F64 => r.read_f64()?.to_val(),
    })
}
fn peek<'a, R: Reader<'a, SimCtx>>(r: &mut R, n: Num) -> Result<Val, SimErr> {
    Ok(match n {
        Num::U8 => r.peek_u8()?.to_val(),
        Num::I8 => r.peek_i8()?.to_val(),
        Num::U16 => r.peek_u16()?.to_val(),
        Num::I16 => r.peek_i16()?.to_val(),
        Num::U32 => r.peek_u32()?.to_val(),
        Num::I32 => r.peek_i32()?.to_val(),
        Num::U64 => r.peek_u64()?.to_val(),
        Num::I64 => r.peek_i64()?.to_val(),
        Num::U128 => r.peek_u128()?.to_val(),
        Num::I128 => r.peek_i128()?.to_val(),
        Num::F32 => r.peek_f32()?.to_val(),
        Num::F64 => r.peek_f64()?.to_val(),
    })
}
fn conv(e: Endianness, n: Num, way: u8, b: &[u8]) -> Val {
    macro_rules! go { ($t:ty, $read:ident, $swap:ident, $slice:ident) => {{
        let parts = b.chunks(std::mem::size_of::<$t>());
        let mut v: Vec<$t> = match way {
            0 => parts.map(|c| e.$read(c)).collect(),
            _ => parts.map(|c| <$t>::from_ne_bytes(c.try_into().unwrap())).collect(),
        };
        match way {
            0 => {}
            1 => v.iter_mut().for_each(|x| e.$swap(x)),
            _ => e.$slice(&mut v),
        }
        Val::L(v.iter().map(|x| x.to_val()).collect())
    }} }
    match n {
        Num::U8 => Val::L(b.iter().map(|x| x.to_val()).collect()),
        Num::I8 => Val::L(b.iter().map(|x| (*x as i8).to_val()).collect()),
        Num::U16 => go!(u16, read_u16, swap_u16, swap_slice_u16),
        Num::I16 => go!(i16, read_i16, swap_i16, swap_slice_i16),
        Num::U32 => go!(u32, read_u32, swap_u32, swap_slice_u32),
        Num::I32 => go!(i32, read_i32, swap_i32, swap_slice_i32),
        Num::U64 => go!(u64, read_u64, swap_u64, swap_slice_u64),
        Num::I64 => go!(i64, read_i64, swap_i64, swap_slice_i64),
        Num::U128 => go!(u128, read_u128, swap_u128, swap_slice_u128),
        Num::I128 => go!(i128, read_i128, swap_i128, swap_slice_i128),
        Num::F32 => go!(f32, read_f32, swap_f32, swap_slice_f32),
        Num::F64 => go!(f64, read_f64, swap_f64, swap_slice_f64),
    }
}
fn set<'a, T: Model + Readable<'a, SimCtx> + Ord, R: Reader<'a, SimCtx>>(r: &mut R, n: Option<usize>) -> Result<Val, SimErr> {
    let c: BTreeSet<T> = match n {
        Some(n) => r.read_collection(n)?,
        None => r.read_collection_until_eof()?,
    };
    Ok(c.to_val())
}
fn list<'a, T: Model + Readable<'a, SimCtx>, R: Reader<'a, SimCtx>>(r: &mut R, n: usize) -> Result<Val, SimErr> {
    let c: Vec<T> = r.read_collection(n)?;
    Ok(T::seq_to_val(&c))
}
fn exec<'a, R: Reader<'a, SimCtx>>(r: &mut R, op: &ROp) -> OpRes {
    let res: Result<Val, SimErr> = match op {
        ROp::Read(n) => num(r, *n),
        ROp::Peek(n) => peek(r, *n),
        ROp::Bytes(n) => {
            let mut b = vec![0xEE; *n];
            r.read_bytes(&mut b).map(|_| Val::B(b))
        }
        ROp::PeekBytes(n) => {
            let mut b = vec![0xEE; *n];
            r.peek_bytes(&mut b).map(|_| Val::B(b))
        }
        ROp::Ptr(n) | ROp::PeekPtr(n) => {
            // Exactly n bytes may be written.
            let mut b: Vec<MaybeUninit<u8>> = vec![MaybeUninit::new(0xEE); *n + 16];
            let p = b.as_mut_ptr() as *mut u8;
            let x = unsafe {
                if matches!(op, ROp::Ptr(_)) {
                    r.read_bytes_into_ptr(p, *n)
                } else {
                    r.peek_bytes_into_ptr(p, *n)
                }
            };
            let all: Vec<u8> = b.iter().map(|x| unsafe { x.assume_init() }).collect();
            if all[*n..].iter().any(|&x| x != 0xEE) {
                return OpRes::V(Val::B(Vec::from(&b"wrote past the destination"[..])));
            }
            x.map(|_| Val::B(all[..*n].to_vec()))
        }
        ROp::Skip(n) => r.skip_bytes(*n).map(|_| Val::Unit),
        ROp::Borrow(n) => match r.read_bytes_borrowed(*n) {
            None => return OpRes::None,
            Some(x) => x.map(|b| Val::B(b.to_vec())),
        },
        ROp::BorrowR(n) => match r.read_bytes_borrowed_from_reader(*n) {
            None => return OpRes::None,
            Some(x) => x.map(|b| Val::B(b.to_vec())),
        },
        ROp::BorrowEof => match r.read_bytes_borrowed_until_eof() {
            None => return OpRes::None,
            Some(b) => Ok(Val::B(b.to_vec())),
        },
        ROp::Vec(e, n) => by_elem!(*e, T => r.read_vec::<T>(*n).map(|v| T::seq_to_val(&v))),
        ROp::Cow(e, n) => by_elem!(*e, T => r.read_cow::<T>(*n).map(|v| T::seq_to_val(&v))),
        ROp::Str(n) => r.read_string(*n).map(|v| v.to_val()),
        ROp::Set(e, n) => match e {
            Elem::U8 => set::<u8, R>(r, Some(*n)),
            Elem::U16 => set::<u16, R>(r, Some(*n)),
            Elem::RawC => set::<RawC, R>(r, Some(*n)),
            Elem::Str => set::<String, R>(r, Some(*n)),
            _ => set::<u32, R>(r, Some(*n)),
        },
        ROp::Boxed(e, n) => by_elem!(*e, T => list::<T, R>(r, *n)),
        ROp::Kv(k, n) => match k {
            0 => r.read_key_value_collection::<u8, u8, HashMap<u8, u8>>(*n).map(|v| v.to_val()),
            1 => r.read_key_value_collection::<u16, RawC, BTreeMap<u16, RawC>>(*n).map(|v| v.to_val()),
            _ => r.read_key_value_collection::<u8, String, HashMap<u8, String>>(*n).map(|v| v.to_val()),
        },
        ROp::VecEof(e) => by_elem!(*e, T => r.read_vec_until_eof::<T>().map(|v| T::seq_to_val(&v))),
        ROp::CowEof(e) => by_elem!(*e, T => r.read_cow_until_eof::<T>().map(|v| T::seq_to_val(&v))),
        ROp::SetEof(e) => match e {
            Elem::U8 => set::<u8, R>(r, None),
            Elem::U16 => set::<u16, R>(r, None),
            Elem::RawC => set::<RawC, R>(r, None),
            Elem::Str => set::<String, R>(r, None),
            _ => set::<u32, R>(r, None),
        },
        ROp::Varint => r.read_u64_varint().map(|v| v.to_val()),
        ROp::PeekVarint => r.peek_u64_varint().map(|v| v.to_val()),
        ROp::Conv(n, k, way) => {
            let mut b = vec![0xEE; num_bytes(*n) as usize * *k];
            r.read_bytes(&mut b).map(|_| conv(r.endianness(), *n, *way, &b))
        }
        ROp::Value(c) => by_comp!(*c, T => r.read_value::<T<'a>>().map(|v| v.to_val())),
        ROp::Can(n) => match r.can_read_at_least(*n) {
            None => return OpRes::None,
            Some(b) => Ok(Val::U(b as u128)),
        },
        ROp::Ctx => {
            let e = r.endianness() == Endianness::BigEndian;
            let c = r.context();
            if e != c.big {
                return OpRes::Ctx(e, u32::MAX);
            }
            return OpRes::Ctx(c.big, trail_hash(&c.trail));
        }
        ROp::SetBig(b) => {
            r.context_mut().big = *b;
            Ok(Val::Unit)
        }
        ROp::Trail(x) => {
            crate::alloc::unscope(|| r.context_mut().trail.push(*x));
            Ok(Val::Unit)
        }
        ROp::Fail => Err(custom("planned")),
    };
    match res {
        Ok(v) => OpRes::V(v),
        Err(e) => er(e),
    }
}
pub fn trail_hash(t: &[u32]) -> u32 {
    t.iter().fold(t.len() as u32, |h, &x| h.wrapping_mul(31).wrapping_add(x + 1))
}
pub fn is_peek(op: &ROp) -> bool {
    matches!(op, ROp::Peek(_) | ROp::PeekBytes(_) | ROp::PeekPtr(_) | ROp::PeekVarint)
}
impl<'a> Readable<'a, SimCtx> for Run {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        let s = script();
        let i = s.next;
        s.next += 1;
        s.out.push(vec![]);
        let seg = s.segs.get(i).cloned().unwrap_or_default();
        for op in &seg {
            let x = exec(r, op);
            let stop = matches!(x, OpRes::E(_)) && !is_peek(op);
            let eof = x == OpRes::E(true);
            script().out[i].push(x);
            if stop {
                // Where the reader stands after a failed read is not specified.
                return Err(if eof { SimErr(eof_error()) } else { custom("stopped") });
            }
        }
        Ok(Run)
    }
    fn minimum_bytes_needed() -> usize {
        0
    }
}
pub fn eof_error() -> speedy::Error {
    <u8 as Readable<speedy::LittleEndian>>::read_from_stream_unbuffered(std::io::empty()).unwrap_err()
}

/// The same script against the reference cursor.
pub struct Cursor<'a> {
    pub d: Dec<'a>,
    pub trail: Vec<u32>,
}
impl<'a> Cursor<'a> {
    pub fn new(data: &'a [u8], big: bool) -> Self {
        Cursor { d: Dec::new(data, big), trail: vec![] }
    }
    fn seq(&mut self, e: Elem, n: Option<usize>, kind: Kind) -> Result<Val, DErr> {
        let s = e.schema();
        self.sch(&S::Seq { len: Len::Eof, elem: Box::new(s), kind, esz: 1 }, n)
    }
    /// Decodes a sequence schema with the given element count instead of an encoded one.
    fn sch(&mut self, s: &S, n: Option<usize>) -> Result<Val, DErr> {
        match n {
            None => self.d.val(s),
            Some(n) => self.d.counted(s, n as u64),
        }
    }
    pub fn exec(&mut self, op: &ROp) -> OpRes {
        let save = self.d.pos;
        let left = self.d.data.len() - self.d.pos;
        let r: Result<Val, DErr> = match op {
            ROp::Read(n) => self.d.val(&n.schema()),
            ROp::Peek(n) => {
                let r = self.d.val(&n.schema());
                self.d.pos = save;
                r
            }
            ROp::Bytes(n) | ROp::Ptr(n) | ROp::Borrow(n) | ROp::BorrowR(n) => self.d.val(&S::Raw(*n)),
            ROp::PeekBytes(n) | ROp::PeekPtr(n) => {
                let r = self.d.val(&S::Raw(*n));
                self.d.pos = save;
                r
            }
            ROp::Skip(n) => self.d.val(&S::Raw(*n)).map(|_| Val::Unit),
            ROp::BorrowEof => self.d.val(&S::Raw(left)),
            ROp::Vec(e, n) | ROp::Cow(e, n) | ROp::Boxed(e, n) => self.seq(*e, Some(*n), Kind::Vec),
            ROp::Str(n) => self.sch(&S::Str(Len::Eof), Some(*n)),
            ROp::Set(e, n) => self.seq(set_elem(*e), Some(*n), Kind::Sorted),
            ROp::Kv(k, n) => {
                let (a, b) = kv(*k);
                self.sch(&S::Map { len: Len::Eof, k: Box::new(a), v: Box::new(b), kind: Kind::Sorted, esz: 1 }, Some(*n))
            }
            ROp::VecEof(e) | ROp::CowEof(e) => self.seq(*e, None, Kind::Vec),
            ROp::SetEof(e) => self.seq(set_elem(*e), None, Kind::Sorted),
            ROp::Varint => self.d.val(&S::Varint),
            ROp::PeekVarint => {
                let r = self.d.val(&S::Varint);
                self.d.pos = save;
                r
            }
            ROp::Conv(n, k, _) => {
                let s = n.schema();
                let r: Result<Vec<Val>, DErr> = (0..*k).map(|_| self.d.val(&s)).collect();
                r.map(Val::L)
            }
            ROp::Value(c) => {
                let before = self.d.flips.len();
                let r = self.d.val(&c.schema());
                for i in before..self.d.flips.len() {
                    self.trail.push(self.d.flips[i] as u32);
                }
                r
            }
            ROp::Can(n) => Ok(Val::U((left >= *n) as u128)),
            ROp::Ctx => return OpRes::Ctx(self.d.big, trail_hash(&self.trail)),
            ROp::SetBig(b) => {
                self.d.big = *b;
                Ok(Val::Unit)
            }
            ROp::Trail(x) => {
                self.trail.push(*x);
                Ok(Val::Unit)
            }
            ROp::Fail => Err(DErr::Bad("planned")),
        };
        match r {
            Ok(v) => OpRes::V(v),
            Err(e) => OpRes::E(e == DErr::Eof),
        }
    }
}
fn set_elem(e: Elem) -> Elem {
    match e {
        Elem::U8 | Elem::U16 | Elem::RawC | Elem::Str => e,
        _ => Elem::U32,
    }
}
pub fn kv(k: u8) -> (S, S) {
    match k {
        0 => (S::U(1), S::U(1)),
        1 => (S::U(2), RawC::schema()),
        _ => (S::U(1), String::schema()),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Scripts against the writer.

#[derive(Clone, Debug, PartialEq)]
pub enum WOp {
    Num(Num, u128),
    Bytes(Vec<u8>),
    Slice(Elem, Val),
    Coll(Elem, Val),
    Varint(u64),
    Value(Comp, Val),
    Can(usize),
    Ctx,
    SetBig(bool),
    Trail(u32),
    /// Fails on purpose.
    Fail,
    /// Ignores the outcome of writing these bytes.
    Ignore(Vec<u8>),
    Panic,
}
pub struct WRun {
    /// Operations by pass: the last one repeats.
    pub passes: Vec<Vec<WOp>>,
    pub pass: std::sync::atomic::AtomicUsize,
    /// What `bytes_needed` answers; None uses the default implementation.
    pub needed: Option<usize>,
    pub log: std::sync::Mutex<Vec<OpRes>>,
}
impl WRun {
    pub fn new(passes: Vec<Vec<WOp>>, needed: Option<usize>) -> Self {
        WRun { passes, pass: 0.into(), needed, log: Default::default() }
    }
    pub fn reset(&self) {
        self.pass.store(0, std::sync::atomic::Ordering::SeqCst);
        self.log.lock().unwrap().clear();
    }
    pub fn passes_run(&self) -> usize {
        self.pass.load(std::sync::atomic::Ordering::SeqCst)
    }
}
fn wnum<W: ?Sized + Writer<SimCtx>>(w: &mut W, n: Num, v: u128) -> Result<(), SimErr> {
    match n {
        Num::U8 => w.write_u8(v as u8),
        Num::I8 => w.write_i8(v as i8),
        Num::U16 => w.write_u16(v as u16),
        Num::I16 => w.write_i16(v as i16),
        Num::U32 => w.write_u32(v as u32),
        Num::I32 => w.write_i32(v as i32),
        Num::U64 => w.write_u64(v as u64),
        Num::I64 => w.write_i64(v as i64),
        Num::U128 => w.write_u128(v),
        Num::I128 => w.write_i128(v as i128),
        Num::F32 => w.write_f32(f32::from_bits(v as u32)),
        Num::F64 => w.write_f64(f64::from_bits(v as u64)),
    }
}
pub fn num_bytes(n: Num) -> u8 {
    match n.schema() {
        S::U(n) | S::I(n) | S::F(n) => n,
        _ => unreachable!(),
    }
}
impl Writable<SimCtx> for WRun {
    fn write_to<T: ?Sized + Writer<SimCtx>>(&self, w: &mut T) -> Result<(), SimErr> {
        let p = self.pass.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let ops = &self.passes[p.min(self.passes.len() - 1)];
        for op in ops {
            match op {
                WOp::Num(n, v) => wnum(w, *n, *v)?,
                WOp::Bytes(b) => w.write_bytes(b)?,
                WOp::Slice(e, v) => by_elem!(*e, E => {
                    let x: Vec<E> = crate::alloc::unscope(|| E::seq_from_val(v));
                    w.write_slice(&x)?
                }),
                WOp::Coll(e, v) => by_elem!(*e, E => {
                    let x: Vec<E> = crate::alloc::unscope(|| E::seq_from_val(v));
                    w.write_collection(x.iter())?
                }),
                WOp::Varint(v) => w.write_u64_varint(*v)?,
                WOp::Value(c, v) => by_comp!(*c, E => {
                    let x = crate::alloc::unscope(|| <E as Model>::from_val(v));
                    w.write_value(&x)?
                }),
                WOp::Can(n) => {
                    let r = match w.can_write_at_least(*n) {
                        None => OpRes::None,
                        Some(b) => OpRes::V(Val::U(b as u128)),
                    };
                    self.log.lock().unwrap().push(r);
                }
                WOp::Ctx => {
                    let e = w.endianness() == Endianness::BigEndian;
                    let c = w.context();
                    let r = if e != c.big { OpRes::Ctx(e, u32::MAX) } else { OpRes::Ctx(c.big, trail_hash(&c.trail)) };
                    self.log.lock().unwrap().push(r);
                }
                WOp::SetBig(b) => w.context_mut().big = *b,
                WOp::Trail(x) => crate::alloc::unscope(|| w.context_mut().trail.push(*x)),
                WOp::Fail => return Err(custom("planned")),
                WOp::Ignore(b) => {
                    let _ = w.write_bytes(b);
                }
                WOp::Panic => std::panic::resume_unwind(Box::new(Planned("writer script"))),
            }
        }
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, SimErr> {
        match self.needed {
            Some(n) => {
                self.pass.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                Ok(n)
            }
            None => default_needed(self),
        }
    }
}
/// The trait's own implementation of `bytes_needed`, reached through a wrapper that does not override it.
struct Plainly<'x>(&'x WRun);
impl<'x> Writable<SimCtx> for Plainly<'x> {
    fn write_to<T: ?Sized + Writer<SimCtx>>(&self, w: &mut T) -> Result<(), SimErr> {
        self.0.write_to(w)
    }
}
fn default_needed(x: &WRun) -> Result<usize, SimErr> {
    Plainly(x).bytes_needed()
}
/// What the operations append according to the documented format, and whether they end in a planned failure.
pub fn wmodel(ops: &[WOp], big: bool) -> (Vec<u8>, bool, bool, Vec<u32>, Vec<OpRes>) {
    let mut e = Enc::new(big);
    let mut trail: Vec<u32> = vec![];
    let mut log = vec![];
    for op in ops {
        match op {
            WOp::Num(n, v) => {
                let s = S::U(num_bytes(*n));
                e.val(&s, &Val::U(*v));
            }
            WOp::Bytes(b) | WOp::Ignore(b) => e.out.extend_from_slice(b),
            WOp::Slice(el, v) | WOp::Coll(el, v) => {
                let s = S::Seq { len: Len::Eof, elem: Box::new(el.schema()), kind: Kind::Vec, esz: 1 };
                e.val(&s, v);
            }
            WOp::Varint(v) => enc_varint(*v, &mut e.out),
            WOp::Value(c, v) => {
                let f = e.flips.len();
                e.val(&c.schema(), v);
                for i in f..e.flips.len() {
                    trail.push(e.flips[i] as u32);
                }
            }
            WOp::Can(_) => {}
            WOp::Ctx => log.push(OpRes::Ctx(e.big, trail_hash(&trail))),
            WOp::SetBig(b) => e.big = *b,
            WOp::Trail(x) => trail.push(*x),
            WOp::Fail | WOp::Panic => return (e.out, e.big, true, trail, log),
        }
    }
    (e.out, e.big, false, trail, log)
}

// ---------------------------------------------------------------------------------------------------------------
// Elements that watch their own lifetime.

pub struct Ledger {
    /// 1 alive, 2 dropped.
    pub state: Vec<u8>,
    pub bad: Option<String>,
    pub zst_made: i64,
    pub zst_dropped: i64,
}
static mut LEDGER: Ledger = Ledger { state: Vec::new(), bad: None, zst_made: 0, zst_dropped: 0 };
pub fn ledger() -> &'static mut Ledger {
    unsafe { &mut LEDGER }
}
pub fn ledger_reset() {
    let l = ledger();
    l.state = Vec::new();
    l.bad = None;
    l.zst_made = 0;
    l.zst_dropped = 0;
}
impl Ledger {
    pub fn alive(&self) -> i64 {
        self.state.iter().filter(|&&x| x == 1).count() as i64 + self.zst_made - self.zst_dropped
    }
}
fn made() -> u32 {
    crate::alloc::unscope(|| {
        let l = ledger();
        l.state.push(1);
        l.state.len() as u32 - 1
    })
}
fn dropped(serial: u32, seal: u32) {
    crate::alloc::unscope(|| {
        let l = ledger();
        let bad = |l: &mut Ledger, s: String| {
            if l.bad.is_none() {
                l.bad = Some(s);
            }
        };
        if seal != serial ^ 0x5EA1_5EA1 {
            bad(l, "an element was dropped that was never created".into());
            return;
        }
        match l.state.get_mut(serial as usize) {
            Some(x) if *x == 1 => *x = 2,
            Some(_) => bad(l, "an element was dropped twice".into()),
            None => bad(l, "an element was dropped that was never created".into()),
        }
    })
}
pub const FAIL_BYTE: u8 = 0xFF;
pub const PANIC_BYTE: u8 = 0xFE;
fn watch_byte<'a, R: Reader<'a, SimCtx>>(r: &mut R) -> Result<u8, SimErr> {
    let b = r.read_u8()?;
    if b == FAIL_BYTE {
        return Err(custom("planned element failure"));
    }
    if b == PANIC_BYTE {
        fired("element panics while decoding");
        std::panic::resume_unwind(Box::new(Planned("element panic")));
    }
    Ok(b)
}
/// One byte on the wire.
pub struct Tracked {
    serial: u32,
    seal: u32,
    pub b: u8,
}
impl Drop for Tracked {
    fn drop(&mut self) {
        dropped(self.serial, self.seal)
    }
}
impl Tracked {
    pub fn new(b: u8) -> Self {
        let serial = made();
        Tracked { serial, seal: serial ^ 0x5EA1_5EA1, b }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.b)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.b == o.b
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.b.cmp(&o.b))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.b.cmp(&o.b)
    }
}
impl std::hash::Hash for Tracked {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.b.hash(h)
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Tracked::new(0)
    }
}
impl<'a> Readable<'a, SimCtx> for Tracked {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        watch_byte(r).map(Tracked::new)
    }
    fn minimum_bytes_needed() -> usize {
        1
    }
}
impl Model for Tracked {
    fn schema() -> S {
        // Not plainly a byte: collections of bytes are values of their own.
        S::Tup(vec![S::U(1)])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![Val::U(self.b as u128)])
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
/// Two bytes on the wire, heap memory of its own, and bigger than any preallocation guess.
pub struct Heavy {
    serial: u32,
    seal: u32,
    pub b: Box<u16>,
    pad: [u64; 40],
}
impl Drop for Heavy {
    fn drop(&mut self) {
        dropped(self.serial, self.seal)
    }
}
impl<'a> Readable<'a, SimCtx> for Heavy {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        let a = watch_byte(r)?;
        let b = watch_byte(r)?;
        let serial = made();
        Ok(Heavy { serial, seal: serial ^ 0x5EA1_5EA1, b: Box::new(a as u16 | (b as u16) << 8), pad: [7; 40] })
    }
    fn minimum_bytes_needed() -> usize {
        2
    }
}
impl Model for Heavy {
    fn schema() -> S {
        S::Tup(vec![S::U(1), S::U(1)])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![Val::U(*self.b as u128 & 255), Val::U(*self.b as u128 >> 8)])
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
/// One byte on the wire, no bytes in memory.
pub struct Ghost;
impl Drop for Ghost {
    fn drop(&mut self) {
        ledger().zst_dropped += 1;
    }
}
impl<'a> Readable<'a, SimCtx> for Ghost {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        watch_byte(r)?;
        ledger().zst_made += 1;
        Ok(Ghost)
    }
    fn minimum_bytes_needed() -> usize {
        1
    }
}
impl Model for Ghost {
    fn schema() -> S {
        S::Skip(1)
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
/// Derived composites around watched elements.
#[derive(Readable)]
pub struct Crew<T> {
    pub a: T,
    pub n: u8,
    pub v: Vec<T>,
    pub o: Option<T>,
    pub p: (T, u16, T),
    pub w: [T; 3],
    pub x: Box<T>,
}
impl<T: Model> Model for Crew<T> {
    fn schema() -> S {
        let f = Field::new;
        S::Struct(vec![
            f(T::schema()),
            f(u8::schema()),
            f(Vec::<T>::schema()),
            f(Option::<T>::schema()),
            f(<(T, u16, T)>::schema()),
            f(<[T; 3]>::schema()),
            f(Box::<T>::schema()),
        ])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.a.to_val(), self.n.to_val(), self.v.to_val(), self.o.to_val(), self.p.to_val(), self.w.to_val(), self.x.to_val()])
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
#[derive(Readable)]
#[speedy(tag_type = u8)]
pub enum Squad<T> {
    #[speedy(tag = 0)]
    None,
    #[speedy(tag = 1)]
    Two(T, T),
    #[speedy(tag = 2)]
    Many {
        #[speedy(length_type = u8)]
        v: Vec<T>,
        last: T,
    },
}
impl<T: Model> Model for Squad<T> {
    fn schema() -> S {
        let f = Field::new;
        S::Enum {
            tag: W::U8,
            peek: false,
            variants: vec![(0, vec![]), (1, vec![f(T::schema()), f(T::schema())]), (2, vec![lt(W::U8)(f(Vec::<T>::schema())), f(T::schema())])],
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Squad::None => Val::E(0, vec![]),
            Squad::Two(a, b) => Val::E(1, vec![a.to_val(), b.to_val()]),
            Squad::Many { v, last } => Val::E(2, vec![v.to_val(), last.to_val()]),
        }
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
#[derive(Readable)]
pub struct Tail<T> {
    pub a: u8,
    #[speedy(length = ..)]
    pub v: Vec<T>,
}
impl<T: Model> Model for Tail<T> {
    fn schema() -> S {
        S::Struct(vec![Field::new(u8::schema()), until_eof(Field::new(Vec::<T>::schema()))])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.a.to_val(), self.v.to_val()])
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}
#[derive(Readable)]
pub struct TailSet<T: Ord> {
    #[speedy(length_type = u8, default_on_eof)]
    pub v: Vec<T>,
    #[speedy(length = ..)]
    pub s: BTreeSet<T>,
}
impl<T: Model + Ord> Model for TailSet<T> {
    fn schema() -> S {
        S::Struct(vec![doe(lt(W::U8)(Field::new(Vec::<T>::schema()))), until_eof(Field::new(BTreeSet::<T>::schema()))])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.v.to_val(), self.s.to_val()])
    }
    fn from_val(_: &Val) -> Self {
        panic!("sim: decode only")
    }
}

// ---------------------------------------------------------------------------------------------------------------
// User code that runs whole operations of its own inside an operation.

struct Env {
    e: &'static crate::api::Entry,
    big: bool,
    v: Val,
    bad: Option<String>,
}
static mut ENV: Option<Env> = None;
pub fn set_envelope(e: &'static crate::api::Entry, big: bool, v: Val) {
    unsafe { ENV = Some(Env { e, big, v, bad: None }) }
}
pub fn envelope_bad() -> Option<String> {
    unsafe { ENV.as_mut().and_then(|e| e.bad.take()) }
}
fn env() -> &'static mut Env {
    unsafe { ENV.as_mut().expect("sim: no envelope") }
}
/// A header in the outer context, then a value encoded by a separate call in a context of its own, then a trailer.
pub struct Envelope;
impl<'a> Readable<'a, SimCtx> for Envelope {
    fn read_from<R: Reader<'a, SimCtx>>(r: &mut R) -> Result<Self, SimErr> {
        let head = r.read_u32()?;
        let inner: Vec<u8> = r.read_value()?;
        crate::alloc::unscope(|| {
            let e = env();
            let o = (e.e.dec)(e.big, crate::api::Way::Copy(&inner));
            match o.r {
                Ok(v) if v == e.v && head == 7 => {}
                o => e.bad = Some(format!("head {} content {:?}", head, o.map(|v| v.short()))),
            }
        });
        if r.read_u16()? != 0x0102 {
            return Err(custom("trailer"));
        }
        Ok(Envelope)
    }
    fn minimum_bytes_needed() -> usize {
        10
    }
}
impl Writable<SimCtx> for Envelope {
    fn write_to<T: ?Sized + Writer<SimCtx>>(&self, w: &mut T) -> Result<(), SimErr> {
        w.write_u32(7)?;
        let inner = crate::alloc::unscope(|| {
            let e = env();
            let mut out = Err(speedy::Error::custom("envelope"));
            (e.e.obj.unwrap())(&e.v, &mut |o| out = o.to_vec(SimCtx::new(e.big)).map_err(|f| speedy::Error::custom(format!("{:?}", f))));
            out
        })?;
        w.write_value(&inner)?;
        w.write_u16(0x0102)
    }
}
impl Model for Envelope {
    fn schema() -> S {
        S::Tup(vec![S::U(4), Vec::<u8>::schema(), S::U(2)])
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        Envelope
    }
}
