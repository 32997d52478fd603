//! C20: failures raised by user code (types, readers, writers) end the operation and reach the caller unchanged.
use crate::api::*;
use crate::base::*;
use crate::model::*;
use crate::props::*;
use crate::stream::*;
use crate::types::*;
use speedy::{Context, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::io::Read;
use std::sync::OnceLock;

/// What user code raises when its turn comes.
#[derive(Clone, Debug)]
pub enum Trip {
    Custom(u32),
    /// Errors of operations nested inside user code.
    Variant,
    Utf8,
    InShort,
    OutShort,
    Prefix,
    Stream(Planted),
    Panic,
}
struct FailRead(Planted);
impl Read for FailRead {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(self.0.make())
    }
}
#[derive(Readable, Debug)]
struct Magic {
    #[speedy(constant_prefix = "magic")]
    _a: u8,
}
impl Trip {
    fn draw() -> Trip {
        match below(9) {
            0 | 1 => Trip::Custom(below(1000)),
            2 => Trip::Variant,
            3 => Trip::Utf8,
            4 => Trip::InShort,
            5 => Trip::OutShort,
            6 => Trip::Prefix,
            7 => Trip::Stream(Planted::draw()),
            _ => Trip::Panic,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Trip::Custom(_) => "user error with a message",
            Trip::Variant => "user error: invalid tag in a nested operation",
            Trip::Utf8 => "user error: invalid text in a nested operation",
            Trip::InShort => "user error: nested input too small",
            Trip::OutShort => "user error: nested output too small",
            Trip::Prefix => "user error: wrong prefix in a nested operation",
            Trip::Stream(_) => "user error: stream failure in a nested operation",
            Trip::Panic => "user panic",
        }
    }
    fn make(&self) -> speedy::Error {
        let r: Result<(), speedy::Error> = match self {
            Trip::Custom(n) => Err(speedy::Error::custom(format!("planned user failure {}", n))),
            Trip::Variant => speedy::Endianness::read_from_buffer(&[9]).map(|_| ()),
            Trip::Utf8 => <String as Readable<LittleEndian>>::read_from_buffer(&[1, 0, 0, 0, 0xFF]).map(|_| ()),
            Trip::InShort => <u32 as Readable<LittleEndian>>::read_from_buffer(&[1]).map(|_| ()),
            Trip::OutShort => <u32 as Writable<LittleEndian>>::write_to_buffer(&7, &mut [0; 2]),
            Trip::Prefix => <Magic as Readable<LittleEndian>>::read_from_buffer(b"magica").map(|_| ()).and(<Magic as Readable<LittleEndian>>::read_from_buffer(b"tragic").map(|_| ())),
            Trip::Stream(p) => <u8 as Readable<LittleEndian>>::read_from_stream_unbuffered(FailRead(p.clone())).map(|_| ()),
            Trip::Panic => std::panic::resume_unwind(Box::new(Planned("user panic"))),
        };
        r.err().unwrap_or_else(|| speedy::Error::custom("no failure"))
    }
}
#[derive(Clone, Default)]
struct Plan {
    on: bool,
    n: u64,
    at: Option<u64>,
    trip: Option<Trip>,
    tripped: bool,
    /// Operations on simulated streams and user readers and writers when it happened.
    ops: u64,
    after: u64,
    /// The disk is full from then on.
    disk_fails: bool,
}
static mut PLAN: Plan = Plan { on: false, n: 0, at: None, trip: None, tripped: false, ops: 0, after: 0, disk_fails: false };
static mut OPS: u64 = 0;
/// One operation of user code outside the fused types.
pub fn op() {
    unsafe { OPS += 1 }
}
/// One step of user code: counted, and failing when its turn has come.
pub fn tick<E: From<speedy::Error>>() -> Result<(), E> {
    let p = unsafe { &mut *std::ptr::addr_of_mut!(PLAN) };
    if !p.on {
        return Ok(());
    }
    if p.tripped {
        p.after += 1;
    }
    let k = p.n;
    p.n += 1;
    if p.at == Some(k) {
        p.tripped = true;
        p.ops = unsafe { OPS };
        let t = p.trip.clone().expect("sim: no trip");
        fired(t.name());
        if p.disk_fails {
            w().disk.space = Some(0);
        }
        return Err(E::from(crate::alloc::unscope(|| t.make())));
    }
    Ok(())
}
fn plan(at: Option<(u64, Trip)>) {
    unsafe {
        PLAN = Plan { on: true, at: at.as_ref().map(|x| x.0), trip: at.map(|x| x.1), disk_fails: chance(1, 2), ..Default::default() };
        w().disk.space = None;
    }
}
fn unplan() -> Plan {
    unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(PLAN)) }
}
pub fn end_case() {
    unplan();
}

/// One byte of a user type whose code takes part in the plan.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Fuse(pub u8);
impl<'a, C: Context> Readable<'a, C> for Fuse {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        tick::<C::Error>()?;
        let b = r.read_u8()?;
        tick::<C::Error>()?;
        Ok(Fuse(b))
    }
    fn minimum_bytes_needed() -> usize {
        1
    }
}
impl<C: Context> Writable<C> for Fuse {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        tick::<C::Error>()?;
        w.write_u8(self.0)?;
        tick()
    }
    fn bytes_needed(&self) -> Result<usize, C::Error> {
        tick::<C::Error>()?;
        Ok(1)
    }
}
impl Model for Fuse {
    fn schema() -> S {
        S::Tup(vec![S::U(1)])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.0.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Fuse(u8::from_val(&v.l()[0]))
    }
}
/// As `Fuse`, and says nothing about its size in advance.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Slow(pub u16, pub Vec<u8>);
impl<'a, C: Context> Readable<'a, C> for Slow {
    fn read_from<R: Reader<'a, C>>(r: &mut R) -> Result<Self, C::Error> {
        tick::<C::Error>()?;
        let a = r.read_u16()?;
        tick::<C::Error>()?;
        let n = r.read_u8()? as usize;
        let v = r.read_vec(n)?;
        tick::<C::Error>()?;
        Ok(Slow(a, v))
    }
}
impl<C: Context> Writable<C> for Slow {
    fn write_to<W: ?Sized + Writer<C>>(&self, w: &mut W) -> Result<(), C::Error> {
        tick::<C::Error>()?;
        w.write_u16(self.0)?;
        tick::<C::Error>()?;
        w.write_u8(self.1.len() as u8)?;
        tick::<C::Error>()?;
        w.write_bytes(&self.1)
    }
}
impl Model for Slow {
    fn schema() -> S {
        S::Struct(vec![Field::new(u16::schema()), lt(W::U8)(Field::new(Vec::<u8>::schema()))])
    }
    fn to_val(&self) -> Val {
        Val::L(vec![self.0.to_val(), self.1.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        Slow(u16::from_val(&v.l()[0]), Model::from_val(&v.l()[1]))
    }
}
use std::borrow::Cow;
use std::collections::*;
dstruct! { FuseDoe {
    a: {Fuse} = [],
    #[speedy(default_on_eof)] b: {Fuse} = [doe],
    #[speedy(default_on_eof)] c: {Option<Slow>} = [doe],
    #[speedy(default_on_eof)] d: {Vec<Fuse>} = [doe],
    #[speedy(length_type = u8, default_on_eof)] e: {Option<Vec<Slow>>} = [lt(W::U8), doe],
    #[speedy(default_on_eof)] f: {(Fuse, Slow)} = [doe],
} }
dstruct! { FuseLens<'a> {
    n: {u8} = [small],
    #[speedy(length = n)] a: {Vec<Fuse>} = [len_of(0)],
    #[speedy(length_type = u16)] b: {BTreeMap<Fuse, Slow>} = [lt(W::U16)],
    #[speedy(length_type = u64_varint)] c: {HashSet<Fuse>} = [lt(W::Var)],
    #[speedy(constant_prefix = "go")] d: {Fuse} = [prefix(b"go")],
    #[speedy(length_type = u7)] e: {Option<Cow<'a, [Slow]>>} = [lt(W::U7)],
    #[speedy(skip)] f: {Vec<Fuse>} = [skipped],
    g: {[Fuse; 3]} = [],
} }
dstruct! { FuseEof { a: {Slow} = [], #[speedy(length = ..)] b: {Vec<Fuse>} = [until_eof] } }
dstruct! { FuseEofSet { #[speedy(length = ..)] b: {BTreeSet<Fuse>} = [until_eof] } }
dstruct! { FuseEofHash { #[speedy(length = ..)] b: {HashSet<Slow>} = [until_eof] } }
dstruct! { FuseEofMap { #[speedy(length = ..)] b: {HashMap<Fuse, Slow>} = [until_eof] } }
dstruct! { FuseEofTree { #[speedy(length = ..)] b: {BTreeMap<Slow, Fuse>} = [until_eof] } }
dstruct! { FuseEofCow<'a> { #[speedy(length = ..)] b: {Cow<'a, [Fuse]>} = [until_eof] } }
dstruct! { FuseEofDoe { #[speedy(default_on_eof)] a: {Fuse} = [doe], #[speedy(length = ..)] b: {Vec<(Slow, Option<Fuse>)>} = [until_eof] } }
denum! { #[speedy(tag_type = u8)] FuseTag tag U8 peek false {
    #[speedy(tag = 0)] A(0) {},
    #[speedy(tag = 1)] B(1) { x: {Fuse} = [], y: {Slow} = [] },
    #[speedy(tag = 7)] C(7) { #[speedy(length_type = u8)] x: {Vec<Slow>} = [lt(W::U8)], y: {Box<Fuse>} = [] },
} }
denum! { #[speedy(tag_type = u8, peek_tag)] FusePeek tag U8 peek true {
    #[speedy(tag = 3)] A(3) { #[speedy(constant_prefix = 3_u8)] x: {Fuse} = [prefix(&[3])] },
    #[speedy(tag = 4)] B(4) { #[speedy(constant_prefix = 4_u8)] x: {Slow} = [prefix(&[4])], y: {Vec<Fuse>} = [] },
} }
pub fn fused() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<Make> = Vec::new();
        entries! { 'a v;
            own "Fuse": Fuse;
            own "Slow": Slow;
            own "Vec<Fuse>": Vec<Fuse>;
            own "Vec<Slow>": Vec<Slow>;
            own "Box<[Fuse]>": Box<[Fuse]>;
            own "Box<Slow>": Box<Slow>;
            own "[Fuse;4]": [Fuse; 4];
            own "[Slow;3]": [Slow; 3];
            own "[[Fuse;2];3]": [[Fuse; 2]; 3];
            own "[Vec<Fuse>;2]": [Vec<Fuse>; 2];
            own "Option<Fuse>": (Option<Fuse>, Option<Slow>);
            own "Result<Fuse,Slow>": Vec<Result<Fuse, Slow>>;
            own "tuple": (Fuse, u16, Slow, (Fuse, u8), Fuse);
            own "Vec<Vec<Slow>>": Vec<Vec<Slow>>;
            own "Vec<Option<Fuse>>": Vec<Option<Fuse>>;
            own "Vec<[Fuse;2]>": Vec<[Fuse; 2]>;
            own "Vec<(Fuse,Slow)>": Vec<(Fuse, Slow)>;
            own "BTreeSet<Fuse>": BTreeSet<Fuse>;
            own "BTreeSet<Slow>": BTreeSet<Slow>;
            own "HashSet<Fuse>": HashSet<Fuse>;
            own "BTreeMap<Fuse,Fuse>": BTreeMap<Fuse, Fuse>;
            own "BTreeMap<u8,Slow>": BTreeMap<u8, Slow>;
            own "HashMap<Fuse,Slow>": HashMap<Fuse, Slow>;
            own "HashMap<u16,Fuse>": HashMap<u16, Fuse>;
            own "Cow<[Fuse]>": Cow<'a, [Fuse]>;
            own "Cow<[Slow]>": Cow<'a, [Slow]>;
            own "Cow<BTreeSet>": Cow<'a, BTreeSet<Slow>>;
            own "Cow<HashMap>": Cow<'a, HashMap<Fuse, u16>>;
            own "SmallVec<Fuse>": smallvec::SmallVec<[Fuse; 3]>;
            own "SmallVec<Slow>": smallvec::SmallVec<[Slow; 2]>;
            own "IndexMap1": Im1<Fuse, Slow>;
            own "IndexMap2": Im2<u16, Fuse>;
            own "IndexSet1": Is1<Slow>;
            own "IndexSet2": Is2<Fuse>;
            own "ranges": (std::ops::Range<Fuse>, std::ops::RangeInclusive<Slow>);
            own "FuseDoe": FuseDoe;
            own "FuseLens": FuseLens<'a>;
            own "FuseEof": FuseEof;
            own "FuseEofSet": FuseEofSet;
            own "FuseEofHash": FuseEofHash;
            own "FuseEofMap": FuseEofMap;
            own "FuseEofTree": FuseEofTree;
            own "FuseEofCow": FuseEofCow<'a>;
            own "FuseEofDoe": FuseEofDoe;
            own "FuseTag": Vec<FuseTag>;
            own "FusePeek": (u8, Vec<FusePeek>);
            own "Mix<Fuse>": Mix<Fuse>;
            own "Gen2": Gen2<Fuse, Slow>;
            uns "[Fuse]": Vec<Fuse>;
            uns "[Slow]": Vec<Slow>;
        }
        Corpus::new(v)
    })
}

/// Runs `f` with user code failing at a drawn step and judges how that came out. `f` is deterministic for a given
/// tape, so a first run without failure counts the steps.
fn with_failure(what: &str, mut f: impl FnMut(&mut Seen) -> Result<(), Fail>) -> Res {
    // The deliveries of the runs are drawn independently: a failure is planned by step of user code, not by stream call.
    plan(None);
    let mut seen = Seen::default();
    let clean = f(&mut seen);
    let total = unplan().n;
    ev("user steps", total, clean.is_ok() as u64);
    if clean.is_err() || total == 0 {
        return Ok(());
    }
    for _ in 0..2 {
        let k = match below(4) {
            0 => total - 1,
            1 => 0,
            _ => below(total as u32) as u64,
        };
        let trip = Trip::draw();
        note(|| format!("{}: {:?} at user step {} of {}", what, trip, k, total));
        let want = match &trip {
            Trip::Panic => None,
            t => {
                let e = t.make();
                if e.is_eof() {
                    if matches!(t, Trip::InShort | Trip::OutShort) {
                        continue;
                    }
                    return viol("a failure of user code is taken for an end of input", format!("{:?}: {}", t, e));
                }
                Some(classify(e))
            }
        };
        plan(Some((k, trip.clone())));
        let mut seen = Seen::default();
        let r = f(&mut seen);
        let p = unplan();
        let ops = unsafe { OPS };
        ev("failed", p.tripped as u64, r.is_ok() as u64);
        let desc = || format!("{}: {:?} at user step {} of {}, got {:?}", what, trip, k, total, r);
        if !p.tripped {
            // The library asked less of user code than before.
            if let Err(f) = &r {
                return viol("fails without cause", format!("{}: {:?}", what, f));
            }
            continue;
        }
        match (&r, &want) {
            (Ok(()), _) => return viol("a failure of user code is swallowed", desc()),
            (Err(Fail::Planned("user panic")), None) => {}
            (Err(_), None) => return viol("a panic of user code does not come through", desc()),
            (Err(got), Some(w)) => {
                if !same(got, w) {
                    return viol("a failure of user code comes out as something else", format!("{} where {:?} was raised", desc(), w));
                }
            }
        }
        if p.after > 0 {
            return viol("user code runs on after its failure", format!("{}, {} more steps", desc(), p.after));
        }
        if seen.io && ops != p.ops {
            return viol("input or output goes on after a failure of user code", format!("{}, {} more operations", desc(), ops - p.ops));
        }
        if let Some(b) = &seen.bad {
            return viol("output goes wrong after a failure of user code", format!("{}: {}", desc(), b));
        }
    }
    // And nothing of it stays behind.
    plan(None);
    let mut seen = Seen::default();
    let again = f(&mut seen);
    unplan();
    if let Err(f) = again {
        return viol("an earlier failure stays behind", format!("{}: {:?}", what, f));
    }
    Ok(())
}
#[derive(Default)]
struct Seen {
    /// Operations are counted for this way of running.
    io: bool,
    bad: Option<String>,
}
fn same(a: &Fail, b: &Fail) -> bool {
    match (a, b) {
        (Fail::Err { text: t1, eof: e1, short: s1, io: i1 }, Fail::Err { text: t2, eof: e2, short: s2, io: i2 }) => t1 == t2 && e1 == e2 && s1 == s2 && i1 == i2,
        _ => false,
    }
}
fn drop_val(o: DecOut) -> Result<(), Fail> {
    o.r.map(|_| ())
}
/// Many failures in user code on one thread; then an operation that must not notice.
fn c20_soak() -> Res {
    let e = fused().any();
    ev(e.name, 0, 0);
    let big = chance(1, 2);
    let (v, data) = sample(e, big, false);
    let how = *w().tape.pick(hows(e));
    let encode = chance(1, 4);
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |x| {
        let go = || -> Result<(), Fail> {
            if encode {
                let mut s = SimSink::plain();
                x.to_vec(SimCtx::new(big))?;
                x.to_stream(SimCtx::new(big), &mut s)
            } else if matches!(how, How::U | How::B) {
                let mut s = SimStream::plain(&data);
                drop_val(if how == How::U { (e.dec)(big, Way::StreamU(&mut s)) } else { (e.dec)(big, Way::StreamB(&mut s)) })
            } else {
                drop_val(run_how(e, big, &data, how).0)
            }
        };
        plan(None);
        let clean = go();
        let total = unplan().n;
        if clean.is_err() || total == 0 {
            return;
        }
        let n = *w().tape.pick(&[20u64, 300, 900]);
        let n = n.min(1_000_000 / (data.len() as u64 + 100));
        let mut failed = 0;
        for _ in 0..n {
            let k = if chance(1, 2) { total - 1 } else { below(total as u32) as u64 };
            plan(Some((k, Trip::draw())));
            failed += go().is_err() as u64;
            unplan();
        }
        fired("hundreds of failures on one thread");
        count("failures of user code one after another", failed);
        plan(None);
        if let Err(f) = go() {
            res = viol("earlier failures stay behind", format!("{} after {} failures: {:?}", e.name, failed, f));
        }
        unplan();
    });
    res
}
pub fn c20() -> Res {
    if chance(1, 300) {
        return c20_soak();
    }
    match below(8) {
        0 | 1 | 2 => c20_decode(fused().any()),
        3 | 4 | 5 => c20_encode(fused().any()),
        6 => {
            let e = pick(|e| !e.borrowed && !e.t.zero_elem);
            c20_reader(e)
        }
        _ => {
            let e = pick(|_| true);
            c20_writer(e)
        }
    }
}
fn c20_decode(e: &Entry) -> Res {
    ev(e.name, 0, 0);
    let big = chance(1, 2);
    let (_, data) = sample(e, big, chance(1, 6));
    let how = *w().tape.pick(hows(e));
    with_failure(&format!("decoding {} by {:?}", e.name, how), |seen| {
        seen.io = true;
        drop_val(run_how(e, big, &data, how).0)
    })
}
/// A user reader whose operations fail, for every type.
fn c20_reader(e: &Entry) -> Res {
    let big = draw_big(e);
    let (_, data) = sample(e, big, chance(1, 6));
    with_failure(&format!("decoding {} from a user reader", e.name), |seen| {
        let mut m = MiniReader::new(&data);
        m.ctx = SimCtx::new(big);
        seen.io = true;
        drop_val((e.dec)(big, Way::Mini(&mut m)))
    })
}
/// A user writer whose operations fail, for every type.
fn c20_writer(e: &Entry) -> Res {
    let big = draw_big(e);
    let v = e.gen(chance(1, 6));
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |x| {
        res = with_failure(&format!("encoding {} into a user writer", e.name), |seen| mini(x, big, seen));
    });
    res
}
fn mini(x: &dyn DynEnc, big: bool, seen: &mut Seen) -> Result<(), Fail> {
    let mut m = MiniWriter { ctx: SimCtx::new(big), out: vec![], fail_at: None };
    seen.io = true;
    x.to_mini(&mut m)
}
fn c20_encode(e: &Entry) -> Res {
    ev(e.name, 0, 0);
    let big = chance(1, 2);
    let v = e.gen(chance(1, 6));
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |x| {
        res = c20_obj(e, big, x);
    });
    res
}
fn c20_obj(e: &Entry, big: bool, x: &dyn DynEnc) -> Res {
    let cx = || SimCtx::new(big);
    let whole = match x.to_vec(cx()) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    let n = whole.len();
    let spare = below(3) as usize;
    let kind = below(8);
    let how = ["a vector", "a vector", "a buffer", "a buffer", "a stream", "a file", "a user writer", "its size"][kind as usize];
    with_failure(&format!("encoding {} into {}", e.name, how), |seen| match kind {
        0 => x.to_vec(cx()).map(|_| ()),
        1 => x.to_vec_mut(&mut cx()).map(|_| ()),
        2 | 3 => {
            let mut b = vec![0xA5u8; n + spare];
            let r = if kind == 2 { x.to_buffer(cx(), &mut b) } else { x.to_buffer_mut(&mut cx(), &mut b) };
            let k = b.iter().zip(&whole).take_while(|(a, b)| a == b).count();
            if r.is_err() && b[k..].iter().any(|&c| c != 0xA5) {
                seen.bad = Some(format!("the buffer holds {} where the encoding is {}", hex(&b), hex(&whole)));
            }
            r
        }
        4 => {
            let mut s = SimSink::draw(n);
            seen.io = true;
            let r = x.to_stream(cx(), &mut s);
            if s.out.len() > n || s.out[..] != whole[..s.out.len()] {
                seen.bad = Some(format!("the stream got {} where the encoding is {}", hex(&s.out), hex(&whole)));
            }
            r
        }
        5 => {
            let p = "/simfs/out".to_string();
            x.to_file(cx(), &p)
        }
        6 => mini(x, big, seen),
        _ => x.needed().map(|_| ()),
    })
}
