//! Type-erased access to speedy's real entry points, and the outcome they had.
use crate::alloc;
use crate::base::*;
use crate::model::*;
use crate::types::*;
use speedy::{BigEndian, Context, Endianness, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A user context with a byte order that can change, a change history, and an error type of its own.
#[derive(Clone, Debug, PartialEq)]
pub struct SimCtx {
    pub big: bool,
    pub trail: Vec<u32>,
}
#[derive(Debug)]
pub struct SimErr(pub speedy::Error);
impl From<speedy::Error> for SimErr {
    fn from(e: speedy::Error) -> Self {
        SimErr(e)
    }
}
impl IsEof for SimErr {
    fn is_eof(&self) -> bool {
        self.0.is_eof()
    }
}
impl Context for SimCtx {
    type Error = SimErr;
    fn endianness(&self) -> Endianness {
        if self.big {
            Endianness::BigEndian
        } else {
            Endianness::LittleEndian
        }
    }
}
impl SimCtx {
    pub fn new(big: bool) -> Self {
        SimCtx { big, trail: Vec::new() }
    }
}
pub trait AnyErr {
    fn inner(self) -> speedy::Error;
}
impl AnyErr for SimErr {
    fn inner(self) -> speedy::Error {
        self.0
    }
}
impl AnyErr for speedy::Error {
    fn inner(self) -> speedy::Error {
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct IoId {
    pub kind: io::ErrorKind,
    pub os: Option<i32>,
    pub text: String,
}
impl IoId {
    pub fn of(e: &io::Error) -> Self {
        IoId { kind: e.kind(), os: e.raw_os_error(), text: e.to_string() }
    }
}
#[derive(Clone, Debug)]
pub enum Fail {
    /// `short`: reported as input or output that is too small.
    Err { text: String, eof: bool, short: bool, io: Option<IoId> },
    Panic(String),
    Planned(&'static str),
}
impl Fail {
    pub fn is_end_of_input(&self) -> bool {
        matches!(self, Fail::Err { eof, short, .. } if *eof || *short)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
}
pub fn classify<E: AnyErr>(e: E) -> Fail {
    let e = e.inner();
    use speedy::private::ErrorKind as K;
    let kind = speedy::private::get_error_kind(&e);
    let short = matches!(kind, K::InputBufferIsTooSmall { .. } | K::OutputBufferIsTooSmall { .. });
    let is_io = matches!(kind, K::IoError(_));
    let eof = e.is_eof();
    let text = e.to_string();
    let from = std::error::Error::source(&e).and_then(|s| s.downcast_ref::<io::Error>()).map(IoId::of);
    let conv = io::Error::from(e);
    let io = if is_io {
        let mut id = IoId::of(&conv);
        if from.as_ref() != Some(&id) || text != id.text {
            id.text = format!("inconsistent: {:?}, {:?} as source, shown as {:?}", id, from, text);
        }
        Some(id)
    } else {
        // Not a failure of a stream or file, and not to be taken for one.
        let fits = (conv.kind() == io::ErrorKind::UnexpectedEof) == eof && conv.raw_os_error().is_none() && conv.to_string() == text && from.is_none();
        if fits {
            None
        } else {
            Some(IoId { text: format!("inconsistent: {} becomes {:?}", text, conv), ..IoId::of(&conv) })
        }
    };
    Fail::Err { text, eof, short, io }
}

/// Runs library code: metered, panics caught and described.
pub fn guard<T, E: AnyErr>(f: impl FnOnce() -> Result<T, E>) -> Result<T, Fail> {
    let r = catch_unwind(AssertUnwindSafe(|| alloc::scope(f)));
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(classify(e)),
        Err(p) => Err(panic_fail(p)),
    }
}
pub fn panic_fail(p: Box<dyn std::any::Any + Send>) -> Fail {
    if let Some(p) = p.downcast_ref::<Planned>() {
        return Fail::Planned(p.0);
    }
    if p.is::<Misaligned>() {
        return Fail::Panic("a misaligned reference was handed out".into());
    }
    if p.is::<crate::sched::Abort>() {
        std::panic::resume_unwind(p);
    }
    let mut s = w().panic_text.take().unwrap_or_default();
    if s.is_empty() {
        s = match p.downcast_ref::<&str>() {
            Some(x) => x.to_string(),
            None => match p.downcast_ref::<String>() {
                Some(x) => x.clone(),
                None => "?".into(),
            },
        };
    }
    if s.contains("sim:") {
        // A defect of the simulator, never of the library.
        std::panic::resume_unwind(Box::new(s));
    }
    Fail::Panic(s)
}

pub enum Way<'a, 's> {
    Buf(&'a [u8]),
    BufLen(&'a [u8]),
    Copy(&'a [u8]),
    CopyLen(&'a [u8]),
    CopyMut(&'a [u8], &'s mut SimCtx),
    StreamU(&'s mut dyn Read),
    StreamB(&'s mut dyn Read),
    File(&'s str),
    Mini(&'s mut MiniReader<'a>),
}
#[derive(Clone, Debug)]
pub struct DecOut {
    pub r: Result<Val, Fail>,
    pub used: Option<usize>,
    pub peak: i64,
    /// Bytes allocated by the library still alive after the result was dropped.
    pub left: i64,
    pub left_checked: bool,
}
impl DecOut {
    pub fn short(&self) -> String {
        match &self.r {
            Ok(v) => format!("Ok({}) used={:?}", v.short(), self.used),
            Err(f) => format!("{:?} used={:?}", f, self.used),
        }
    }
}
fn finish<T: Model>(r: Result<T, Fail>, used: Option<usize>) -> DecOut {
    let peak = alloc::meter().peak;
    let panicked = matches!(r, Err(Fail::Panic(_)) | Err(Fail::Planned(_)));
    let r = match r {
        Ok(v) => {
            if let Some(f) = w().after.take() {
                f();
            }
            let c = catch_unwind(AssertUnwindSafe(|| v.to_val()));
            drop(v);
            match c {
                Ok(v) => Ok(v),
                Err(p) => Err(panic_fail(p)),
            }
        }
        Err(f) => Err(f),
    };
    DecOut { r, used, peak, left: alloc::meter().live, left_checked: !panicked }
}
pub fn decode<'a, T: Model + Readable<'a, SimCtx>>(big: bool, way: Way<'a, '_>) -> DecOut {
    alloc::reset();
    let ctx = SimCtx::new(big);
    let mut used = None;
    let r: Result<T, Fail> = match way {
        Way::Buf(b) => guard(|| T::read_from_buffer_with_ctx(ctx, b)),
        Way::BufLen(b) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_with_ctx(ctx, b);
            used = Some(n);
            r
        }),
        Way::Copy(b) => guard(|| T::read_from_buffer_copying_data_with_ctx(ctx, b)),
        Way::CopyLen(b) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(ctx, b);
            used = Some(n);
            r
        }),
        Way::CopyMut(b, c) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(c, b);
            used = Some(n);
            r
        }),
        Way::StreamU(s) => guard(|| T::read_from_stream_unbuffered_with_ctx(ctx, s)),
        Way::StreamB(s) => guard(|| T::read_from_stream_buffered_with_ctx(ctx, s)),
        Way::File(p) => guard(|| T::read_from_file_with_ctx(ctx, p)),
        Way::Mini(m) => {
            m.ctx = ctx;
            guard(|| T::read_from(m))
        }
    };
    finish(r, used)
}
/// The entry points without a context argument.
pub fn decode_def<'a, T: Model + Readable<'a, LittleEndian>>(_big: bool, way: Way<'a, '_>) -> DecOut {
    alloc::reset();
    let mut used = None;
    let r: Result<T, Fail> = match way {
        Way::Buf(b) => guard(|| T::read_from_buffer(b)),
        Way::BufLen(b) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer(b);
            used = Some(n);
            r
        }),
        Way::Copy(b) => guard(|| T::read_from_buffer_copying_data(b)),
        Way::CopyLen(b) | Way::CopyMut(b, _) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_copying_data(b);
            used = Some(n);
            r
        }),
        Way::StreamU(s) => guard(|| T::read_from_stream_unbuffered(s)),
        Way::StreamB(s) => guard(|| T::read_from_stream_buffered(s)),
        Way::File(p) => guard(|| T::read_from_file(p)),
        Way::Mini(m) => guard(|| T::read_from_stream_unbuffered(MiniRead(m))),
    };
    finish(r, used)
}
/// The contexts the library provides.
pub fn decode_std<'a, T>(big: bool, way: Way<'a, '_>) -> DecOut
where
    T: Model + Readable<'a, LittleEndian> + Readable<'a, BigEndian> + Readable<'a, Endianness>,
{
    if chance(1, 2) {
        let mut e = if big { Endianness::BigEndian } else { Endianness::LittleEndian };
        decode_any::<Endianness, T>(&mut e, way)
    } else if big {
        decode_any::<BigEndian, T>(&mut BigEndian {}, way)
    } else {
        decode_any::<LittleEndian, T>(&mut LittleEndian {}, way)
    }
}
fn decode_any<'a, C: Context<Error = speedy::Error> + Default2, T: Model + Readable<'a, C>>(ctx: &mut C, way: Way<'a, '_>) -> DecOut {
    alloc::reset();
    let mut used = None;
    let own = ctx.again();
    let r: Result<T, Fail> = match way {
        Way::Buf(b) => guard(|| T::read_from_buffer_with_ctx(own, b)),
        Way::BufLen(b) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_with_ctx(own, b);
            used = Some(n);
            r
        }),
        Way::Copy(b) => guard(|| T::read_from_buffer_copying_data_with_ctx(own, b)),
        Way::CopyLen(b) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx(own, b);
            used = Some(n);
            r
        }),
        Way::CopyMut(b, _) => guard(|| {
            let (r, n) = T::read_with_length_from_buffer_copying_data_with_ctx_mut(ctx, b);
            used = Some(n);
            r
        }),
        Way::StreamU(s) => guard(|| T::read_from_stream_unbuffered_with_ctx(own, s)),
        Way::StreamB(s) => guard(|| T::read_from_stream_buffered_with_ctx(own, s)),
        Way::File(p) => guard(|| T::read_from_file_with_ctx(own, p)),
        Way::Mini(m) => guard(|| T::read_from_stream_unbuffered_with_ctx(own, MiniRead(m))),
    };
    finish(r, used)
}
pub trait Default2 {
    fn again(&self) -> Self;
}
impl Default2 for Endianness {
    fn again(&self) -> Self {
        *self
    }
}
impl Default2 for LittleEndian {
    fn again(&self) -> Self {
        LittleEndian {}
    }
}
impl Default2 for BigEndian {
    fn again(&self) -> Self {
        BigEndian {}
    }
}
struct MiniRead<'m, 'a>(&'m mut MiniReader<'a>);
impl<'m, 'a> Read for MiniRead<'m, 'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = out.len().min(self.0.data.len() - self.0.pos);
        out[..n].copy_from_slice(&self.0.data[self.0.pos..self.0.pos + n]);
        self.0.pos += n;
        Ok(n)
    }
}

/// A user-supplied reader that implements only the required operations.
pub struct MiniReader<'a> {
    pub ctx: SimCtx,
    pub data: &'a [u8],
    pub pos: usize,
}
impl<'a> MiniReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        MiniReader { ctx: SimCtx::new(false), data, pos: 0 }
    }
}
fn eof() -> SimErr {
    SimErr(speedy::Error::from(EofMark))
}
/// speedy has no public constructor for its end-of-input error, so get one from it.
struct EofMark;
impl From<EofMark> for speedy::Error {
    fn from(_: EofMark) -> Self {
        <u8 as Readable<LittleEndian>>::read_from_stream_unbuffered(io::empty()).unwrap_err()
    }
}
impl<'a> Reader<'a, SimCtx> for MiniReader<'a> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), SimErr> {
        crate::props_user::op();
        crate::props_user::tick::<SimErr>()?;
        if self.data.len() - self.pos < out.len() {
            return Err(eof());
        }
        out.copy_from_slice(&self.data[self.pos..self.pos + out.len()]);
        self.pos += out.len();
        Ok(())
    }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), SimErr> {
        crate::props_user::op();
        crate::props_user::tick::<SimErr>()?;
        if self.data.len() - self.pos < out.len() {
            return Err(eof());
        }
        out.copy_from_slice(&self.data[self.pos..self.pos + out.len()]);
        Ok(())
    }
    fn context(&self) -> &SimCtx {
        &self.ctx
    }
    fn context_mut(&mut self) -> &mut SimCtx {
        &mut self.ctx
    }
}
/// A user-supplied writer that implements only the required operations, with an optional failure after n bytes.
pub struct MiniWriter {
    pub ctx: SimCtx,
    pub out: Vec<u8>,
    pub fail_at: Option<usize>,
}
impl Writer<SimCtx> for MiniWriter {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), SimErr> {
        crate::props_user::op();
        crate::props_user::tick::<SimErr>()?;
        if let Some(n) = self.fail_at {
            if self.out.len() + b.len() > n {
                return Err(SimErr(speedy::Error::custom("planned writer failure")));
            }
        }
        alloc::unscope(|| self.out.extend_from_slice(b));
        Ok(())
    }
    fn context(&self) -> &SimCtx {
        &self.ctx
    }
    fn context_mut(&mut self) -> &mut SimCtx {
        &mut self.ctx
    }
}

/// Encoding entry points of one value, independent of its type.
pub trait DynEnc: Sync {
    fn to_vec(&self, ctx: SimCtx) -> Result<Vec<u8>, Fail>;
    fn to_vec_mut(&self, ctx: &mut SimCtx) -> Result<Vec<u8>, Fail>;
    fn to_buffer(&self, ctx: SimCtx, out: &mut [u8]) -> Result<(), Fail>;
    fn to_buffer_mut(&self, ctx: &mut SimCtx, out: &mut [u8]) -> Result<(), Fail>;
    fn to_stream(&self, ctx: SimCtx, s: &mut dyn Write) -> Result<(), Fail>;
    fn to_file(&self, ctx: SimCtx, path: &str) -> Result<(), Fail>;
    fn to_mini(&self, m: &mut MiniWriter) -> Result<(), Fail>;
    fn needed(&self) -> Result<usize, Fail>;
}
impl<T: Writable<SimCtx> + Sync> DynEnc for T {
    fn to_vec(&self, ctx: SimCtx) -> Result<Vec<u8>, Fail> {
        guard(|| self.write_to_vec_with_ctx(ctx))
    }
    fn to_vec_mut(&self, ctx: &mut SimCtx) -> Result<Vec<u8>, Fail> {
        guard(|| self.write_to_vec_with_ctx_mut(ctx))
    }
    fn to_buffer(&self, ctx: SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        guard(|| self.write_to_buffer_with_ctx(ctx, out))
    }
    fn to_buffer_mut(&self, ctx: &mut SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        guard(|| self.write_to_buffer_with_ctx_mut(ctx, out))
    }
    fn to_stream(&self, ctx: SimCtx, s: &mut dyn Write) -> Result<(), Fail> {
        guard(|| self.write_to_stream_with_ctx(ctx, s))
    }
    fn to_file(&self, ctx: SimCtx, path: &str) -> Result<(), Fail> {
        guard(|| self.write_to_file_with_ctx(ctx, path))
    }
    fn to_mini(&self, m: &mut MiniWriter) -> Result<(), Fail> {
        guard(|| self.write_to(m))
    }
    fn needed(&self) -> Result<usize, Fail> {
        guard(|| Writable::<SimCtx>::bytes_needed(self))
    }
}
/// The entry points without a context argument.
pub struct Def<T>(pub T);
impl<T: Writable<LittleEndian> + Sync> DynEnc for Def<T> {
    fn to_vec(&self, _: SimCtx) -> Result<Vec<u8>, Fail> {
        guard(|| self.0.write_to_vec())
    }
    fn to_vec_mut(&self, _: &mut SimCtx) -> Result<Vec<u8>, Fail> {
        guard(|| self.0.write_to_vec())
    }
    fn to_buffer(&self, _: SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        guard(|| self.0.write_to_buffer(out))
    }
    fn to_buffer_mut(&self, _: &mut SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        guard(|| self.0.write_to_buffer(out))
    }
    fn to_stream(&self, _: SimCtx, s: &mut dyn Write) -> Result<(), Fail> {
        guard(|| self.0.write_to_stream(s))
    }
    fn to_file(&self, _: SimCtx, path: &str) -> Result<(), Fail> {
        guard(|| self.0.write_to_file(path))
    }
    fn to_mini(&self, m: &mut MiniWriter) -> Result<(), Fail> {
        let mut o = Vec::new();
        let r = guard(|| self.0.write_to_stream(&mut o));
        m.out.extend_from_slice(&o);
        r
    }
    fn needed(&self) -> Result<usize, Fail> {
        guard(|| Writable::<LittleEndian>::bytes_needed(&self.0))
    }
}

/// The contexts the library provides.
pub struct Std<T>(pub T, pub bool);
macro_rules! in_std { ($self:ident, $big:expr, |$c:ident: $t:ident| $e:expr) => {
    if $self.1 {
        type $t = Endianness;
        let mut $c: $t = if $big { Endianness::BigEndian } else { Endianness::LittleEndian };
        guard(|| $e)
    } else if $big {
        type $t = BigEndian;
        let mut $c: $t = BigEndian {};
        guard(|| $e)
    } else {
        type $t = LittleEndian;
        let mut $c: $t = LittleEndian {};
        guard(|| $e)
    }
} }
#[allow(unused_mut)]
impl<T: Writable<LittleEndian> + Writable<BigEndian> + Writable<Endianness> + Sync> DynEnc for Std<T> {
    fn to_vec(&self, ctx: SimCtx) -> Result<Vec<u8>, Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_vec_with_ctx(&self.0, c))
    }
    fn to_vec_mut(&self, ctx: &mut SimCtx) -> Result<Vec<u8>, Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_vec_with_ctx_mut(&self.0, &mut c))
    }
    fn to_buffer(&self, ctx: SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_buffer_with_ctx(&self.0, c, out))
    }
    fn to_buffer_mut(&self, ctx: &mut SimCtx, out: &mut [u8]) -> Result<(), Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_buffer_with_ctx_mut(&self.0, &mut c, out))
    }
    fn to_stream(&self, ctx: SimCtx, s: &mut dyn Write) -> Result<(), Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_stream_with_ctx(&self.0, c, s))
    }
    fn to_file(&self, ctx: SimCtx, path: &str) -> Result<(), Fail> {
        in_std!(self, ctx.big, |c: Cx| Writable::<Cx>::write_to_file_with_ctx(&self.0, c, path))
    }
    fn to_mini(&self, m: &mut MiniWriter) -> Result<(), Fail> {
        let mut o = Vec::new();
        let r = in_std!(self, m.ctx.big, |c: Cx| Writable::<Cx>::write_to_stream_with_ctx(&self.0, c, &mut o));
        m.out.extend_from_slice(&o);
        r
    }
    fn needed(&self) -> Result<usize, Fail> {
        in_std!(self, true, |c: Cx| {
            let _ = &mut c;
            Writable::<Cx>::bytes_needed(&self.0)
        })
    }
}

/// Unsized values.
pub struct Uns<'x, T: ?Sized>(pub &'x T);
macro_rules! uns { ($([$($g:tt)*] $t:ty;)*) => {$(
    impl<'x, $($g)*> DynEnc for Uns<'x, $t> {
        fn to_vec(&self, ctx: SimCtx) -> Result<Vec<u8>, Fail> {
            guard(|| self.0.write_to_vec_with_ctx(ctx))
        }
        fn to_vec_mut(&self, ctx: &mut SimCtx) -> Result<Vec<u8>, Fail> {
            guard(|| self.0.write_to_vec_with_ctx_mut(ctx))
        }
        fn to_buffer(&self, ctx: SimCtx, out: &mut [u8]) -> Result<(), Fail> {
            guard(|| self.0.write_to_buffer_with_ctx(ctx, out))
        }
        fn to_buffer_mut(&self, ctx: &mut SimCtx, out: &mut [u8]) -> Result<(), Fail> {
            guard(|| self.0.write_to_buffer_with_ctx_mut(ctx, out))
        }
        fn to_stream(&self, ctx: SimCtx, s: &mut dyn Write) -> Result<(), Fail> {
            guard(|| self.0.write_to_stream_with_ctx(ctx, s))
        }
        fn to_file(&self, ctx: SimCtx, path: &str) -> Result<(), Fail> {
            guard(|| self.0.write_to_file_with_ctx(ctx, path))
        }
        fn to_mini(&self, m: &mut MiniWriter) -> Result<(), Fail> {
            guard(|| self.0.write_to(m))
        }
        fn needed(&self) -> Result<usize, Fail> {
            guard(|| Writable::<SimCtx>::bytes_needed(self.0))
        }
    })*}}
uns! { [] str; [T: Writable<SimCtx> + Sync] [T]; }
pub fn direct<T: DynEnc>(x: T, f: &mut dyn FnMut(&dyn DynEnc)) {
    f(&x)
}
/// Now and then through a reference to the value, as generic code does.
pub fn by_ref<T: Writable<SimCtx> + Sync>(mut x: T, f: &mut dyn FnMut(&dyn DynEnc)) {
    match below(10) {
        0 => f(&&x),
        1 => f(&&mut x),
        _ => f(&x),
    }
}

pub type DecFn = for<'a, 's> fn(bool, Way<'a, 's>) -> DecOut;
pub type ObjFn = fn(&Val, &mut dyn FnMut(&dyn DynEnc));
pub struct Entry {
    pub name: &'static str,
    pub s: S,
    pub t: Traits,
    pub min: usize,
    pub mem: u64,
    pub borrowed: bool,
    pub dec: DecFn,
    pub obj: Option<ObjFn>,
    /// Byte order is fixed to little endian.
    pub le_only: bool,
    /// Instruction-level simulation can afford it.
    pub align: usize,
}
impl Entry {
    pub fn gen(&self, big_sizes: bool) -> Val {
        let mut g = Gen { budget: if crate::SMALL { 14 } else { 60 }, depth: 0, big: big_sizes && !crate::SMALL };
        g.val(&mut w().tape, &self.s)
    }
}
/// Entries are made when they are first picked.
pub type Make = fn() -> Entry;
macro_rules! entries {
    ($lt:lifetime $out:ident; $( $kind:ident $name:literal : $t:ty ; )*) => { $( entries!(@ $lt $out $kind $name, $t); )* };
    (@ $lt:lifetime $out:ident own $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, false, decode, |v| v, false, by_ref) };
    (@ $lt:lifetime $out:ident uns $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, false, decode, |v| v, false, |x: $t, f: &mut dyn FnMut(&dyn DynEnc)| f(&Uns(&x[..]))) };
    (@ $lt:lifetime $out:ident bor $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, true, decode, |v| v, false, by_ref) };
    (@ $lt:lifetime $out:ident def $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, false, decode_def, Def, true, direct) };
    (@ $lt:lifetime $out:ident std $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, false, decode_std, |v| Std(v, chance(1, 2)), false, direct) };
    (@ $lt:lifetime $out:ident stdbor $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, true, decode_std, |v| Std(v, chance(1, 2)), true, direct) };
    (@ $lt:lifetime $out:ident defbor $name:literal, $t:ty) => { entries!(@@ $lt $out $name, $t, true, decode_def, Def, true, direct) };
    (@@ $lt:lifetime $out:ident $name:literal, $t:ty, $bor:literal, $dec:ident, $wrap:expr, $le:literal, $call:expr) => {{
        fn d<$lt, 's>(big: bool, way: Way<$lt, 's>) -> DecOut { $dec::<$t>(big, way) }
        fn o<$lt>(v: &Val, f: &mut dyn FnMut(&dyn DynEnc)) {
            let x: $t = <$t as Model>::from_val(v);
            let x = ($wrap)(x);
            ($call)(x, f);
        }
        fn sc<$lt>(_: &$lt ()) -> S { <$t as Model>::schema() }
        fn make() -> Entry {
            let s = sc(&());
            Entry { name: $name, t: traits(&s), min: min_bytes(&s, 0), mem: mem_factor(&s, 0), s, borrowed: $bor, dec: d, obj: Some(o), le_only: $le, align: 1 }
        }
        $out.push(make);
    }};
}
pub fn corpus() -> Vec<Make> {
    use crate::custom::SkipN;
    use std::borrow::Cow;
    use std::collections::*;
    use std::num::*;
    let mut v: Vec<Make> = Vec::new();
    entries! { 'a v;
        own "u8": u8;
        own "u16": u16;
        own "u32": u32;
        own "i64": i64;
        own "f64": f64;
        own "ints": (u8, i8, u16, i16, u32, i32, u64, i64);
        own "wide": (u128, i128, f32, f64, usize);
        own "misc": (bool, char, (), speedy::Endianness);
        own "nonzero": (NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64);
        own "tuple11": (u8, u16, u8, u32, u8, u64, bool, i16, u8, i32, u16);
        own "String": String;
        own "Box<str>": Box<str>;
        own "Option<String>": Option<String>;
        own "Vec<u8>": Vec<u8>;
        own "Vec<i8>": Vec<i8>;
        own "Vec<u16>": Vec<u16>;
        own "Vec<i32>": Vec<i32>;
        own "Vec<u64>": Vec<u64>;
        own "Vec<u128>": Vec<u128>;
        own "Vec<f32>": Vec<f32>;
        own "Vec<bool>": Vec<bool>;
        own "Vec<char>": Vec<char>;
        own "Vec<String>": Vec<String>;
        own "Vec<Vec<u16>>": Vec<Vec<u16>>;
        own "Vec<Option<u32>>": Vec<Option<u32>>;
        own "Vec<(u8,u32)>": Vec<(u8, u32)>;
        own "Box<[u32]>": Box<[u32]>;
        own "Box<[String]>": Box<[String]>;
        own "Box<u64>": Box<u64>;
        own "Cow<[u8]>": Cow<'a, [u8]>;
        own "Cow<[u32]>": Cow<'a, [u32]>;
        own "Cow<[String]>": Cow<'a, [String]>;
        own "Cow<str>": Cow<'a, str>;
        own "Cow<HashMap>": Cow<'a, HashMap<u8, u16>>;
        own "Cow<BTreeSet>": Cow<'a, BTreeSet<u32>>;
        own "Cow<HashSet>": Cow<'a, HashSet<String>>;
        own "Cow<BTreeMap>": Cow<'a, BTreeMap<u16, u16>>;
        own "HashMap<u8,u8>": HashMap<u8, u8>;
        own "HashMap<u16,u64>": HashMap<u16, u64>;
        own "HashMap<u32,String>": HashMap<u32, String>;
        own "BTreeMap<u16,u32>": BTreeMap<u16, u32>;
        own "BTreeMap<String,Vec>": BTreeMap<String, Vec<u8>>;
        own "HashSet<u32>": HashSet<u32>;
        own "BTreeSet<u8>": BTreeSet<u8>;
        own "BTreeSet<u16>": BTreeSet<u16>;
        own "BTreeSet<String>": BTreeSet<String>;
        own "IndexMap1": Im1<u16, u32>;
        own "IndexMap2": Im2<u16, String>;
        own "IndexSet1": Is1<u16>;
        own "IndexSet2": Is2<u8>;
        own "SmallVec<u32>": smallvec::SmallVec<[u32; 4]>;
        own "SmallVec<String>": smallvec::SmallVec<[String; 2]>;
        own "ranges": (std::ops::Range<u16>, std::ops::RangeInclusive<u32>);
        own "Option<u8>": Option<u8>;
        own "Result": Result<u16, String>;
        own "[u8;16]": [u8; 16];
        own "[u32;5]": [u32; 5];
        own "[u16;700]": [u16; 700];
        own "[String;3]": [String; 3];
        own "[[u16;2];2]": [[u16; 2]; 2];
        own "Duration": std::time::Duration;
        own "SystemTime": std::time::SystemTime;
        own "net": (std::net::Ipv4Addr, std::net::Ipv6Addr, std::net::IpAddr);
        own "DateTime": chrono::DateTime<chrono::Utc>;
        own "Uuid": (u8, uuid::Uuid);
        own "Regex": regex::Regex;
        own "glam1": (glam::Vec3, glam::DVec4, glam::IVec3, glam::UVec4, glam::Quat);
        own "glam2": (glam::Mat3, glam::DMat2, glam::Affine3A, glam::BVec3);
        own "Vec<Vec2>": Vec<glam::Vec2>;
        own "Plain": Plain;
        own "Nested": Nested;
        own "LenTypes": LenTypes;
        own "LenTypesCow": LenTypesCow<'a>;
        own "LenFields": LenFields;
        own "LenOpt": LenOpt;
        own "Doe": Doe;
        own "DoeVec": DoeVec;
        own "DoeOpt": DoeOpt;
        own "DoeLen": DoeLen;
        own "DoeNested": DoeNested;
        own "EofBytes": EofBytes;
        own "EofInts": EofInts;
        own "EofPairs": EofPairs;
        own "EofVecs": EofVecs;
        own "EofStr": EofStr;
        own "EofSet": EofSet;
        own "EofMap": EofMap;
        own "EofCow": EofCow<'a>;
        own "EofCowStr": EofCowStr<'a>;
        own "Skippy": Skippy;
        own "Prefixed": Prefixed;
        own "Varints": Varints;
        own "Arrays": Arrays;
        own "Everything": Everything;
        own "Atomics": Atomics;
        own "Mixed": Mixed;
        own "Vec<Mixed>": Vec<Mixed>;
        own "TagU7": TagU7;
        own "TagU8": TagU8;
        own "TagU16": TagU16;
        own "TagU64": TagU64;
        own "TagVar": TagVar;
        own "Peek8": Peek8;
        own "PeekVar": PeekVar;
        own "Peek16": Peek16;
        own "Peek32": Peek32;
        own "Peek64": Peek64;
        own "Peeks": Peeks;
        own "Tuples": Tuples;
        own "Chain": Chain;
        own "Tree": Tree;
        own "Vec<RawC>": Vec<RawC>;
        own "Vec<RawPad>": Vec<RawPad>;
        own "Vec<RawVar>": Vec<RawVar>;
        own "Vec<Packed>": Vec<Packed>;
        own "[TransRaw;3]": [TransRaw; 3];
        own "Vec<RawWide>": Vec<RawWide>;
        own "RawHolder": RawHolder;
        own "RawMaps": RawMaps;
        own "Cow<[RawC]>": Cow<'a, [RawC]>;
        own "Mix<Plain>": Mix<Plain>;
        own "Vec<Doe>": Vec<Doe>;
        own "(Doe,EofBytes)": (Doe, EofBytes);
        own "WideLens": WideLens<'a>;
        own "WideSets": WideSets<'a>;
        own "WideMaps": WideMaps<'a>;
        own "WideTexts": WideTexts<'a>;
        own "LenWide": LenWide<'a>;
        own "DoeWide": DoeWide<'a>;
        own "EofWide": EofWide<'a>;
        own "EofDoe": EofDoe;
        own "RawNest": (u8, RawNest);
        own "Vec<RawNest>": Vec<RawNest>;
        own "[RawNest2;2]": [RawNest2; 2];
        own "Vec<RawNest2>": Vec<RawNest2>;
        own "Vec<TransTrans>": Vec<TransTrans>;
        own "Vec<PackedTrans>": Vec<PackedTrans>;
        own "Cow<[PackedVar]>": Cow<'a, [PackedVar]>;
        own "Vec<TransVar>": Vec<TransVar>;
        own "Vec<PackedVar>": Vec<PackedVar>;
        own "Vec<TransDoe>": Vec<TransDoe>;
        own "Vec<RawDoe>": Vec<RawDoe>;
        own "RawAttrs": RawAttrs;
        own "PeekMin": PeekMin;
        own "Vec<PeekMin>": Vec<PeekMin>;
        own "(PeekMin32,u8)": (PeekMin32, u8);
        own "[PeekMin32;2]": [PeekMin32; 2];
        own "Attrs": Attrs<'a>;
        own "DoeSets": DoeSets<'a>;
        own "DoeMaps": DoeMaps<'a>;
        own "EofSets": EofSets;
        own "EofMaps": EofMaps;
        own "Vec<Discr>": Vec<Discr>;
        own "TupleStruct": TupleStruct;
        own "Gen2": Gen2<u16, String>;
        own "Gen2b": Gen2<RawC, PeekMin>;
        own "Option<Box<[RawC]>>": Option<Box<[RawC]>>;
        own "SmallVec<RawC>": smallvec::SmallVec<[RawC; 2]>;
        own "Vec<Result>": Vec<Result<u8, Vec<u16>>>;
        own "Vec<[u8;3]>": Vec<[u8; 3]>;
        own "Vec<Duration>": Vec<std::time::Duration>;
        own "Vec<Uuid>": Vec<uuid::Uuid>;
        own "Vec<Ipv4Addr>": Vec<std::net::Ipv4Addr>;
        own "HashMap<String,Vec<String>>": HashMap<String, Vec<String>>;
        own "BTreeMap<u8,BTreeMap>": BTreeMap<u8, BTreeMap<u8, u16>>;
        bor "&str": &'a str;
        bor "&[u8]": &'a [u8];
        bor "&[i8]": &'a [i8];
        bor "&[u8;5]": &'a [u8; 5];
        bor "RefMix": RefMix<'a>;
        bor "RefEof": RefEof<'a>;
        bor "RefEofBytes": RefEofBytes<'a>;
        bor "RefLen": RefLen<'a>;
        bor "WideRef": WideRef<'a>;
        bor "Vec<&str>": Vec<&'a str>;
        bor "BTreeMap<&str,&[u8]>": BTreeMap<&'a str, &'a [u8]>;
        bor "(&[u8;3],&str,&[i8;2])": (&'a [u8; 3], &'a str, &'a [i8; 2]);
        bor "Option<Box<&[u8]>>": Option<Box<&'a [u8]>>;
        bor "Mix<&str>": Mix<&'a str>;
        own "glam3": (glam::Vec3A, glam::Vec4, glam::DVec2, glam::DVec3, glam::IVec2, glam::IVec4, glam::UVec2, glam::UVec3, glam::DQuat);
        own "glam4": (glam::Mat2, glam::Mat3A, glam::Mat4, glam::DMat3, glam::DMat4, glam::BVec2, glam::BVec4);
        own "glam5": (glam::Affine2, glam::DAffine2, glam::DAffine3, Vec<glam::Vec3A>, [glam::BVec4; 2]);
        own "OwnMap": OwnMap<u16, String>;
        own "OwnSet": OwnSet<u32>;
        own "Orders": Orders;
        own "OrdCow": OrdCow<'a>;
        own "Vec<Ord1>": Vec<Ord1>;
        own "Vec<Ord2>": Vec<Ord2>;
        own "[Ord4;3]": [Ord4; 3];
        own "Vec<OrdC>": Vec<OrdC>;
        own "Vec<OrdGap>": Vec<OrdGap>;
        own "Grove": Grove;
        own "Expr": Expr;
        own "Dir": Dir;
        own "Vec<Lopsided>": Vec<Lopsided>;
        own "Sized3": Sized3;
        own "Minima": Minima;
        own "MinRecur": MinRecur;
        own "Prefixed2": Prefixed2;
        own "Prefixed3": Prefixed3;
        own "Cow<[u128]>": Cow<'a, [u128]>;
        own "Cow<[f64]>": (u8, Cow<'a, [f64]>);
        own "Cow<[RawWide]>": (u8, Cow<'a, [RawWide]>);
        own "(u64,SkipN<1500>,u16)": (u64, SkipN<1500>, u16);
        own "(u8,SkipN<2048>,u8,SkipN<1>)": (u8, SkipN<2048>, u8, SkipN<1>);
        own "tuples": ((u8,), (u8, u16), (u8, u16, u32), (u8, u8, u8, u8), (u16, u8, u16, u8, u16), (u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u32));
        own "tuples8": ((u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, i32));
        own "Vec<u128>2": (u8, Vec<u128>, Vec<i128>, Vec<u32>, Vec<i64>, Vec<i16>, Vec<f64>);
        own "[i64;4]": ([i64; 4], [u8; 1], [f32; 2], [i8; 3], [u128; 2], [u16; 0]);
        own "Vec<()>": (Vec<u8>, Option<()>, Result<(), u8>);
        own "Vec<glam>": Vec<glam::DVec3>;
        own "Option<Option>": (Option<Option<u16>>, Option<Vec<Option<u8>>>, Option<bool>);
        own "Vec<Option<Box>>": Vec<Option<Box<Plain>>>;
        own "Result<Vec>": Result<Vec<u16>, Vec<String>>;
        own "ranges2": (std::ops::Range<i64>, std::ops::RangeInclusive<u8>, Vec<std::ops::Range<u16>>, std::ops::Range<String>);
        uns "str": String;
        uns "[u8]": Vec<u8>;
        uns "[u16]": Vec<u16>;
        uns "[String]": Vec<String>;
        uns "[RawC]": Box<[RawC]>;
        own "Envelope alone": Vec<(u32, Vec<u8>, u16)>;
        own "Forceds": Forceds;
        own "Cow<[Aligned]>": Cow<'a, [Aligned]>;
        own "aligned": (u8, Vec<Aligned>, Vec<AlignedGap>, [AlignedFit; 3], Box<[AlignedFit]>, Option<Aligned>);
        own "Vec<Forced>": Vec<Forced>;
        own "[ForcedPacked;4]": [ForcedPacked; 4];
        own "Cow<[Forced]>": Cow<'a, [Forced]>;
        std "std:u32": u32;
        std "std:Vec<u16>": Vec<u16>;
        std "std:Nested": Nested;
        std "std:RawC": Vec<RawC>;
        std "std:DoeOpt": DoeOpt;
        std "std:Cow<[u64]>": Cow<'a, [u64]>;
        std "std:tuple": (u8, String, Option<u64>, BTreeMap<u16, i32>, [u16; 3], f64);
        def "def:u32": u32;
        def "def:Vec<u16>": Vec<u16>;
        def "def:Nested": Nested;
        def "def:HashMap": HashMap<u16, String>;
        def "def:DoeOpt": DoeOpt;
        def "def:Cow<[u64]>": Cow<'a, [u64]>;
    }
    v
}
/// Types only decoded from bytes made for them: their peeked tags overlap what follows.
pub fn corpus_windows() -> Vec<Make> {
    let mut v: Vec<Make> = Vec::new();
    entries! { 'a v;
        own "Windows": Windows;
        own "Windows2": Windows2;
        own "Windows3": Windows3;
    }
    v
}
/// Only bytes in the machine's own order can be lent; the default context is little-endian.
#[cfg(target_endian = "little")]
mod native {
    use crate::types::TransU16;
    pub type N0<'a> = &'a [TransU16];
    pub type N1<'a> = (u8, &'a [u16], &'a [f32; 2]);
    pub type N2<'a> = &'a [u128];
    pub type N3<'a> = &'a [u16];
    pub type N4<'a> = &'a [f64];
    pub type N5<'a> = &'a [u32; 3];
}
#[cfg(target_endian = "big")]
mod native {
    pub type N0<'a> = &'a [u8];
    pub type N1<'a> = (u8, &'a [u8], &'a [i8; 2]);
    pub type N2<'a> = &'a [i8];
    pub type N3<'a> = &'a [u8];
    pub type N4<'a> = &'a [u8];
    pub type N5<'a> = &'a [u8; 3];
}
use native::*;
/// Types whose borrowed slices need aligned input: either the value or an error, never a misaligned reference.
pub fn corpus_aligned() -> Vec<Make> {
    let mut v: Vec<Make> = Vec::new();
    entries! { 'a v;
        bor "RefRaw": RefRaw<'a>;
        bor "WideRefRaw": WideRefRaw<'a>;
        bor "&[Forced]": &'a [Forced];
        bor "&[ForcedPacked;3]": &'a [ForcedPacked; 3];
        bor "&[Packed]": &'a [Packed];
        bor "(&[Packed;2],u8,&[Forced;2])": (&'a [Packed; 2], u8, &'a [Forced; 2]);
        bor "Vec<&[Forced]>": Vec<&'a [Forced]>;
        defbor "def:&[TransU16]": N0<'a>;
        defbor "def:(u8,&[u16],&[f32;2])": N1<'a>;
        defbor "def:&[u128]": N2<'a>;
        defbor "def:&[u16]": N3<'a>;
        defbor "def:&[f64]": N4<'a>;
        defbor "def:&[u32;3]": N5<'a>;
    }
    v
}
