//! Scripted user types: C14 (reader operations), C15 (writer operations), C16 (context changes).
use crate::api::*;
use crate::base::*;
use crate::custom::*;
use crate::model::*;
use crate::os::*;
use crate::props::*;
use crate::stream::*;
use crate::types::*;
use std::sync::OnceLock;

// ------------------------------------------------------------------------------------------------- reader scripts
/// What a scripted type is wrapped in: fixed parts around the scripted ones.
#[derive(Clone)]
enum Piece {
    Part(S),
    Script(Vec<ROp>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap {
    Bare,
    Many,
    Mixed,
    Handed,
    Followed,
    Boxed,
    Chosen,
    Array,
}
const WRAPS: &[Wrap] = &[Wrap::Bare, Wrap::Bare, Wrap::Bare, Wrap::Many, Wrap::Mixed, Wrap::Handed, Wrap::Followed, Wrap::Boxed, Wrap::Chosen, Wrap::Array];
fn wrap_dec(x: Wrap) -> DecFn {
    macro_rules! f {
        ($t:ty) => {{
            fn d<'a, 's>(big: bool, way: Way<'a, 's>) -> DecOut {
                decode::<$t>(big, way)
            }
            d
        }};
    }
    match x {
        Wrap::Bare => f!(Run),
        Wrap::Many => f!(Vec<Run>),
        Wrap::Mixed => f!(Mix<Run>),
        Wrap::Handed => f!(Hand<Run>),
        Wrap::Followed => f!((u8, Run, Plain, Run)),
        Wrap::Boxed => f!((Box<Run>, String)),
        Wrap::Chosen => f!(Option<Run>),
        Wrap::Array => f!([Run; 3]),
    }
}
struct Draft {
    pieces: Vec<Piece>,
    data: Vec<u8>,
    enc: Enc,
    ctx: bool,
    until_eof: bool,
    small: bool,
}
const N_SMALL: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64, 100];
const N_EDGE: &[usize] = &[1000, 4096, 8183, 8184, 8190, 8191, 8192, 8193, 8200, 9000, 16384, 16390];
fn amount(small: bool) -> usize {
    if !small && !crate::SMALL && chance(1, 5) {
        *w().tape.pick(N_EDGE)
    } else {
        *w().tape.pick(N_SMALL)
    }
}
fn elems() -> usize {
    *w().tape.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 17])
}
/// Far more than any input holds.
const CLAIMS: &[usize] = &[1 << 16, 100_000_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1u64 << 32) as usize, (1u64 << 40) as usize, (1u64 << 60) as usize, usize::MAX / 16 + 2, usize::MAX / 8, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 7, usize::MAX - 1, usize::MAX];
/// An operation which asks for more than there is.
fn claim() -> ROp {
    let n = *w().tape.pick(CLAIMS);
    let e = *w().tape.pick(ELEMS);
    fired("operation asks for more than there is");
    match below(10) {
        0 => ROp::Skip(n),
        1 => ROp::Borrow(n),
        2 => ROp::BorrowR(n),
        3 | 4 => ROp::Str(n),
        5 => ROp::Vec(e, n),
        6 => ROp::Cow(e, n),
        7 => ROp::Boxed(e, n),
        8 => ROp::Set(*w().tape.pick(&[Elem::U8, Elem::U16, Elem::RawC, Elem::Str, Elem::U32]), n),
        _ => ROp::Kv(below(3) as u8, n),
    }
}
/// A custom type asks for claimed amounts: memory stays bounded by what arrives.
pub fn c12_script() -> Res {
    let big = chance(1, 2);
    let mut d = Draft { pieces: vec![], data: vec![], enc: Enc::new(big), ctx: false, until_eof: false, small: true };
    let n = below(4);
    d.script(n);
    let Some(Piece::Script(ops)) = d.pieces.pop() else { panic!("sim: no script") };
    let mut ops = ops;
    ops.push(claim());
    let k = *w().tape.pick(if crate::SMALL { &[0usize, 1, 10] } else { &[0usize, 1, 10, 200, 3000] });
    d.fill(k);
    let data = std::mem::take(&mut d.enc.out);
    ev("script", data.len() as u64, hash_bytes(&data));
    note(|| format!("big-endian={} script {:?} input {}", big, ops, hex(&data)));
    let g = Guarded::new(&data, 0);
    for _ in 0..3 {
        let how = *w().tape.pick(ALL_HOW);
        set_script(vec![ops.clone()]);
        let (o, got) = run_dec(wrap_dec(Wrap::Bare), big, g.bytes(), how);
        take_script();
        if let Err(Fail::Panic(p)) = &o.r {
            if p.contains("capacity overflow") {
                return viol("memory", format!("{:?} by {:?}: {}", ops, how, p));
            }
        }
        let lim = MEM_FLOOR + 3000 * got as u64;
        ev("peak", (o.peak as u64) / 4096, 0);
        if o.peak as u64 > lim {
            return viol("memory", format!("{:?} by {:?}: {} bytes allocated for {} delivered bytes (limit {})", ops, how, o.peak, got, lim));
        }
    }
    Ok(())
}
impl Draft {
    fn fill(&mut self, n: usize) {
        let mut b = vec![0; n];
        Rng::new(below(1 << 24) as u64).fill(&mut b);
        self.enc.out.extend(b);
    }
    fn part(&mut self, s: S) {
        let v = Gen { budget: 12, depth: 3, big: false }.val(&mut w().tape, &s);
        self.enc.val(&s, &v);
        self.pieces.push(Piece::Part(s));
    }
    fn list(&mut self, e: Elem, n: usize) {
        let s = e.schema();
        for _ in 0..n {
            if !matches!(s, S::U(_) | S::I(_)) || n < 20 {
                let v = Gen { budget: 6, depth: 4, big: false }.val(&mut w().tape, &s);
                self.enc.val(&s, &v);
            } else {
                self.fill(min_bytes(&s, 0));
            }
        }
    }
    fn rop(&mut self) -> ROp {
        if chance(1, 40) {
            return claim();
        }
        let k = below(if self.ctx { 27 } else { 20 });
        let num = *w().tape.pick(NUMS);
        match k {
            0 | 1 => {
                let s = num.schema();
                let n = min_bytes(&s, 0);
                if chance(1, 4) {
                    let k = below(5) as usize;
                    self.fill(n * k);
                    return ROp::Conv(num, k, below(3) as u8);
                }
                self.fill(n);
                ROp::Read(num)
            }
            2 => ROp::Peek(num),
            3 => {
                let n = amount(self.small);
                self.fill(n);
                ROp::Bytes(n)
            }
            4 => ROp::PeekBytes(amount(self.small)),
            5 => {
                let n = amount(self.small);
                self.fill(n);
                ROp::Ptr(n)
            }
            6 => ROp::PeekPtr(amount(self.small)),
            7 => {
                let n = amount(self.small);
                self.fill(n);
                ROp::Skip(n)
            }
            8 => {
                let n = amount(self.small);
                self.fill(n);
                if chance(1, 2) {
                    ROp::Borrow(n)
                } else {
                    ROp::BorrowR(n)
                }
            }
            9 | 10 => {
                let e = *w().tape.pick(ELEMS);
                let fixed = matches!(e, Elem::U8 | Elem::U16 | Elem::U32 | Elem::I64);
                let n = if fixed && !self.small && !crate::SMALL && chance(1, 6) { *w().tape.pick(&[511usize, 1024, 2048, 4096, 8192, 8193]) } else { elems() };
                self.list(e, n);
                if k == 9 {
                    ROp::Vec(e, n)
                } else {
                    ROp::Cow(e, n)
                }
            }
            11 => {
                let n = amount(self.small);
                let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                self.enc.out.extend(b);
                ROp::Str(n)
            }
            12 => {
                let e = *w().tape.pick(&[Elem::U8, Elem::U16, Elem::RawC, Elem::Str, Elem::U32]);
                let n = elems();
                self.list(e, n);
                if chance(1, 2) {
                    ROp::Set(e, n)
                } else {
                    ROp::Boxed(e, n)
                }
            }
            13 => {
                let k = below(3) as u8;
                let n = elems();
                let (a, b) = kv(k);
                for _ in 0..n {
                    for s in [&a, &b] {
                        let v = Gen { budget: 6, depth: 4, big: false }.val(&mut w().tape, s);
                        self.enc.val(s, &v);
                    }
                }
                ROp::Kv(k, n)
            }
            14 => {
                let v = Gen { budget: 3, depth: 0, big: false }.val(&mut w().tape, &S::Varint);
                self.enc.val(&S::Varint, &v);
                ROp::Varint
            }
            15 => ROp::PeekVarint,
            16 | 17 => self.value(),
            18 => ROp::Can(amount(self.small)),
            19 => {
                if !chance(1, 4) {
                    return ROp::Peek(num);
                }
                self.until_eof = true;
                let e = *w().tape.pick(&[Elem::U8, Elem::U16, Elem::RawC, Elem::Str, Elem::Pair]);
                let n = elems();
                self.list(e, n);
                match below(4) {
                    0 => ROp::VecEof(e),
                    1 => ROp::CowEof(e),
                    2 => ROp::SetEof(e),
                    _ => ROp::BorrowEof,
                }
            }
            20 | 21 => ROp::Ctx,
            22 | 23 => {
                let b = chance(1, 2);
                self.enc.big = b;
                ROp::SetBig(b)
            }
            24 => ROp::Trail(below(100)),
            25 => {
                let s = Comp::VecSwitch.schema();
                let v = Gen { budget: 10, depth: 2, big: false }.val(&mut w().tape, &s);
                self.enc.val(&s, &v);
                ROp::Value(Comp::VecSwitch)
            }
            _ => {
                if chance(1, 4) {
                    ROp::Fail
                } else {
                    ROp::Ctx
                }
            }
        }
    }
    fn value(&mut self) -> ROp {
        let c = *w().tape.pick(COMPS);
        let c = if c == Comp::VecSwitch && !self.ctx { Comp::Nested } else { c };
        if c == Comp::Doe {
            self.until_eof = true;
        }
        let s = c.schema();
        let v = Gen { budget: 15, depth: 2, big: false }.val(&mut w().tape, &s);
        self.enc.val(&s, &v);
        ROp::Value(c)
    }
    fn script(&mut self, n: u32) {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.rop());
        }
        self.pieces.push(Piece::Script(v));
    }
}
fn draft(x: Wrap, big: bool, ctx: bool) -> Draft {
    let mut d = Draft { pieces: vec![], data: vec![], enc: Enc::new(big), ctx, until_eof: false, small: chance(1, 2) };
    let long = range(1, 14);
    let short = |d: &mut Draft| {
        let n = below(5);
        d.script(n)
    };
    match x {
        Wrap::Bare => d.script(long),
        Wrap::Many => {
            let n = range(1, 4);
            d.enc.val(&S::U(4), &Val::U(n as u128));
            d.pieces.push(Piece::Part(S::U(4)));
            for _ in 0..n {
                short(&mut d);
            }
        }
        Wrap::Mixed => {
            d.part(S::U(4));
            d.script(long);
            d.part(Vec::<u16>::schema());
            d.part(S::U(8));
            d.part(Option::<u32>::schema());
        }
        Wrap::Handed => {
            d.part(S::U(2));
            d.script(long);
            d.part(S::U(4));
            d.part(S::SetEndian);
            d.part(S::U(8));
        }
        Wrap::Followed => {
            d.part(S::U(1));
            short(&mut d);
            d.part(Plain::schema());
            short(&mut d);
        }
        Wrap::Boxed => {
            d.script(long);
            d.part(String::schema());
        }
        Wrap::Chosen => {
            d.enc.out.push(1);
            d.pieces.push(Piece::Part(S::Bool));
            d.script(long);
        }
        Wrap::Array => {
            for _ in 0..3 {
                short(&mut d);
            }
        }
    }
    d.data = std::mem::take(&mut d.enc.out);
    d
}
#[derive(Debug)]
enum End {
    Done,
    Eof,
    Bad,
}
/// Runs the cursor next to what the library did; says where the two part ways.
struct Judged {
    end: End,
    /// Every state (byte order, trail) the context may be in.
    states: Vec<(bool, u32)>,
    pos: usize,
    parts: Vec<Val>,
}
fn judge(x: Wrap, pieces: &[Piece], data: &[u8], big: bool, how: How, got: &[Vec<OpRes>], ok: bool) -> Result<Judged, Viol> {
    let mut c = Cursor::new(data, big);
    let mut seg = 0;
    let mut parts = vec![];
    let state = |c: &Cursor| (c.d.big, trail_hash(&c.trail));
    let mut states = vec![state(&c)];
    // How far inside of itself a failing operation gets may depend on the reader.
    let partly = |c: &Cursor, big: bool, from: usize, states: &mut Vec<(bool, u32)>| {
        for i in from..c.trail.len() {
            states.push((if i == from { big } else { c.trail[i - 1] == 1 }, trail_hash(&c.trail[..i])));
        }
    };
    let mut ran_out = false;
    for p in pieces {
        match p {
            Piece::Part(s) => {
                let (was, from) = (c.d.big, c.trail.len());
                let before = c.d.flips.len();
                let r = c.d.val(s);
                for i in before..c.d.flips.len() {
                    c.trail.push(c.d.flips[i] as u32);
                }
                if ran_out {
                    states.push(state(&c));
                } else {
                    states = vec![state(&c)];
                }
                match r {
                    Ok(v) => parts.push(v),
                    Err(e) => {
                        partly(&c, was, from, &mut states);
                        if got.len() > seg {
                            return viol("a script ran after the input had failed", format!("{:?} by {:?}", x, how));
                        }
                        return Ok(Judged { end: if e == DErr::Eof { End::Eof } else { End::Bad }, states, pos: c.d.pos, parts });
                    }
                }
            }
            Piece::Script(ops) => {
                let empty = vec![];
                let log = got.get(seg).unwrap_or(&empty);
                for (i, op) in ops.iter().enumerate() {
                    let lib = log.get(i);
                    if lib == Some(&OpRes::None) {
                        let optional = matches!(op, ROp::Can(_)) || (matches!(op, ROp::Borrow(_) | ROp::BorrowR(_) | ROp::BorrowEof) && !matches!(how, How::Buf | How::BufLen));
                        if !optional {
                            return viol("operation not offered", format!("{:?} by {:?}: {:?}", x, how, op));
                        }
                        continue;
                    }
                    let (was, from) = (c.d.big, c.trail.len());
                    let want = c.exec(op);
                    if lib.is_none() {
                        // The library gave up before it got here: it has to have run out of input, and so must we.
                        if ok || x == Wrap::Bare {
                            return viol("operation never reached", format!("{:?} by {:?}: operation {} of script {} ({:?})", x, how, i, seg, op));
                        }
                        ran_out = true;
                    }
                    match (&want, lib) {
                        (OpRes::E(eof), Some(OpRes::E(g))) => {
                            if *eof && !*g {
                                return viol("end of input reported as something else", format!("{:?} by {:?}: operation {} of script {} ({:?}) at {}", x, how, i, seg, op, c.d.pos));
                            }
                        }
                        (a, Some(b)) if a != b => {
                            return viol("operation differs from the cursor", format!("{:?} by {:?}: operation {} of script {} ({:?}): expected {:?}, got {:?}; cursor at {}", x, how, i, seg, op, a, b, c.d.pos));
                        }
                        _ => {}
                    }
                    if ran_out {
                        states.push(state(&c));
                    } else {
                        states = vec![state(&c)];
                    }
                    if let OpRes::E(eof) = want {
                        if !is_peek(op) {
                            partly(&c, was, from, &mut states);
                            return Ok(Judged { end: if eof { End::Eof } else { End::Bad }, states, pos: c.d.pos, parts });
                        }
                    }
                }
                if log.len() > ops.len() {
                    return viol("sim: log too long", "");
                }
                seg += 1;
            }
        }
    }
    Ok(Judged { end: End::Done, states, pos: c.d.pos, parts })
}
fn plain_parts(v: &Val, out: &mut Vec<Val>, x: Wrap) {
    let l = |v: &Val| v.l().to_vec();
    let skip = |v: &Val| *v == Val::L(vec![]);
    match x {
        Wrap::Bare | Wrap::Many | Wrap::Array => {}
        Wrap::Mixed => {
            let l = l(v);
            out.extend([l[0].clone(), l[2].clone(), l[3].clone(), l[4].clone()]);
            debug_assert!(skip(&l[1]));
        }
        Wrap::Handed => {
            let l = l(v);
            out.extend([l[0].clone(), l[2].clone(), l[3].clone(), l[4].clone()]);
        }
        Wrap::Followed => {
            let l = l(v);
            out.extend([l[0].clone(), l[2].clone()]);
        }
        Wrap::Boxed => out.push(l(v)[1].clone()),
        Wrap::Chosen => {}
    }
}
fn reader_case(ctx: bool) -> Res {
    let x = *w().tape.pick(WRAPS);
    let big = chance(1, 2);
    let mut d = draft(x, big, ctx);
    let mut data = std::mem::take(&mut d.data);
    match below(6) {
        0 | 1 => {}
        2 => {
            let k = below(data.len() as u32 + 1) as usize;
            data.truncate(k);
            fired("truncation");
        }
        3 => mutate(&mut data),
        _ => {
            let n = *w().tape.pick(if crate::SMALL { &[1usize, 20] } else { &[1usize, 20, 8192, 9000] });
            d.fill(n);
            data.extend(std::mem::take(&mut d.enc.out));
        }
    }
    // The leading flag decides whether there is a script at all.
    if x == Wrap::Chosen && data.first().map(|&b| b == 0).unwrap_or(false) {
        data[0] = 1;
    }
    if x == Wrap::Many {
        // As many scripts as planned.
        let n = d.pieces.len() as u32 - 1;
        let b = if big { n.to_be_bytes() } else { n.to_le_bytes() };
        for (a, b) in data.iter_mut().zip(b) {
            *a = b;
        }
    }
    ev("script", data.len() as u64, hash_bytes(&data));
    note(|| format!("{:?} big-endian={}", x, big));
    let mut segs = vec![];
    for p in &d.pieces {
        if let Piece::Script(s) = p {
            note(|| format!("script {:?}", s));
            segs.push(s.clone());
        }
    }
    note(|| format!("input of {} bytes {}", data.len(), hex(&data)));
    let g = Guarded::new(&data, below(9) as usize);
    let n = if chance(1, 3) { ALL_HOW.len() as u32 } else { 4 };
    let first = below(ALL_HOW.len() as u32);
    for k in 0..n {
        let how = ALL_HOW[((first + k) % ALL_HOW.len() as u32) as usize];
        set_script(segs.clone());
        let mut cx = SimCtx::new(big);
        let mut delivered = None;
        let o = match how {
            How::CopyMut => (wrap_dec(x))(big, Way::CopyMut(g.bytes(), &mut cx)),
            How::Mini => {
                let mut m = MiniReader::new(g.bytes());
                let o = (wrap_dec(x))(big, Way::Mini(&mut m));
                cx = m.ctx;
                delivered = Some(m.pos);
                o
            }
            How::U => {
                let mut s = SimStream::draw(g.bytes());
                note(|| format!("{:?}: {}", how, s.describe()));
                let o = (wrap_dec(x))(big, Way::StreamU(&mut s));
                delivered = Some(s.pos);
                o
            }
            _ => run_dec(wrap_dec(x), big, g.bytes(), how).0,
        };
        let log = take_script();
        ev("logged", log.iter().map(|l| l.len() as u64).sum(), o.r.is_ok() as u64);
        count("operations compared", log.iter().map(|l| l.len() as u64).sum());
        if let Err(f) = &o.r {
            match f {
                Fail::Panic(p) => return viol("panic", format!("{:?} by {:?}: {}", x, how, p)),
                Fail::Planned(p) => return viol(format!("stuck: {}", p), format!("{:?} by {:?}", x, how)),
                _ => {}
            }
        }
        let j = judge(x, &d.pieces, g.bytes(), big, how, &log, o.r.is_ok())?;
        match (&j.end, &o.r) {
            (End::Done, Ok(v)) => {
                let mut parts = vec![];
                plain_parts(v, &mut parts, x);
                let want: Vec<Val> = match x {
                    Wrap::Many | Wrap::Chosen => vec![],
                    _ => j.parts.clone(),
                };
                if parts != want {
                    return viol("wrong value", format!("{:?} by {:?}: expected {:?} got {:?}", x, how, want, parts));
                }
                if let Some(u) = o.used {
                    if u != j.pos {
                        return viol("wrong length", format!("{:?} by {:?}: {} instead of {}", x, how, u, j.pos));
                    }
                }
                if let Some(p) = delivered {
                    // Peeked bytes are not consumed but have been taken from a stream.
                    if p < j.pos || (how == How::Mini && p != j.pos) {
                        return viol("wrong position", format!("{:?} by {:?}: {} instead of {}", x, how, p, j.pos));
                    }
                }
            }
            (End::Eof, Err(f)) if x == Wrap::Bare && !f.is_end_of_input() => return viol("end of input reported as something else", format!("{:?} by {:?}: {:?}", x, how, f)),
            (End::Eof, Err(_)) | (End::Bad, Err(_)) => {}
            (e, _) => return viol("outcome differs from the cursor", format!("{:?} by {:?}: expected {:?}, got {}", x, how, e, o.short())),
        }
        if ctx && matches!(how, How::CopyMut | How::Mini) {
            let s = (cx.big, trail_hash(&cx.trail));
            if !j.states.contains(&s) {
                return viol("context not left as changed", format!("{:?} by {:?}: {:?}, expected one of {:?}", x, how, (cx.big, &cx.trail), j.states));
            }
        }
    }
    Ok(())
}
pub fn c14() -> Res {
    reader_case(false)
}
fn scripted(ops: &[ROp], data: &[u8], hows: &[How]) -> Res {
    for &how in hows {
        set_script(vec![ops.to_vec()]);
        let o = run_dec(wrap_dec(Wrap::Bare), false, data, how).0;
        let log = take_script();
        judge(Wrap::Bare, &[Piece::Script(ops.to_vec())], data, false, how, &log, o.r.is_ok())?;
    }
    Ok(())
}
fn d14_varint() -> Res {
    // A varint of several bytes is looked at twice and then taken.
    for k in 1..9 {
        let mut d = vec![];
        enc_varint(1 << (7 * k), &mut d);
        d.extend([1, 2, 3]);
        scripted(&[ROp::PeekVarint, ROp::PeekVarint, ROp::Varint, ROp::Read(Num::U16)], &d, ALL_HOW)?;
        scripted(&[ROp::Read(Num::U8), ROp::PeekVarint], &d[..1], ALL_HOW)?;
    }
    Ok(())
}
pub const D14: &[(&str, fn() -> Res)] = &[("varint-peek", d14_varint)];

// ------------------------------------------------------------------------------------------------- writer scripts
fn wop(ctx: bool, small: bool) -> WOp {
    let val = |s: &S| Gen { budget: 12, depth: 2, big: false }.val(&mut w().tape, s);
    match below(if ctx { 16 } else { 11 }) {
        0 | 1 | 2 => {
            let n = *w().tape.pick(NUMS);
            WOp::Num(n, Gen::int(&mut w().tape, num_bytes(n)))
        }
        3 => {
            let n = amount(small);
            let mut b = vec![0; n];
            Rng::new(below(1 << 24) as u64).fill(&mut b);
            WOp::Bytes(b)
        }
        4 | 5 => {
            let e = *w().tape.pick(ELEMS);
            let n = elems();
            let s = S::Arr(n, Box::new(e.schema()));
            WOp::Slice(e, val(&s))
        }
        6 => {
            let e = *w().tape.pick(ELEMS);
            let n = elems();
            let s = S::Arr(n, Box::new(e.schema()));
            WOp::Coll(e, val(&s))
        }
        7 => WOp::Varint(val(&S::Varint).u() as u64),
        8 | 9 => {
            let c = *w().tape.pick(COMPS);
            let c = if c == Comp::VecSwitch && !ctx { Comp::Mixed } else { c };
            // The order of hashed collections is not known beforehand.
            let c = if traits(&c.schema()).hashed { Comp::RawHolder } else { c };
            WOp::Value(c, val(&c.schema()))
        }
        10 => {
            if chance(1, 2) {
                WOp::Can(amount(small))
            } else {
                WOp::Bytes(vec![])
            }
        }
        11 | 12 => WOp::Ctx,
        13 => WOp::SetBig(chance(1, 2)),
        14 => WOp::Trail(below(100)),
        _ => {
            if chance(1, 6) {
                WOp::Fail
            } else {
                WOp::Ctx
            }
        }
    }
}
fn wops(ctx: bool, max: u32) -> Vec<WOp> {
    let small = chance(1, 2);
    (0..below(max + 1)).map(|_| wop(ctx, small)).collect()
}
pub fn c15() -> Res {
    match below(3) {
        0 => c15_sizes(),
        1 => c15_script(),
        _ => c15_shifty(),
    }
}
/// Sizes and bounded buffers of library-provided and derived types.
fn c15_sizes() -> Res {
    let e = pick(|_| true);
    let big = draw_big(e);
    let (v, d) = sample(e, big, chance(1, 5));
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |o| res = c15_bounded(e.name, o, big, &d, &mut |b| check_bytes(e, &v, big, b), true));
    res
}
/// Encodes into buffers around the needed size. `sized`: the announced size must be exact.
fn c15_bounded(name: &str, o: &dyn DynEnc, big: bool, want: &[u8], same: &mut dyn FnMut(&[u8]) -> Res, sized: bool) -> Res {
    let n = want.len();
    if sized {
        match o.needed() {
            Ok(k) if k == n => {}
            Ok(k) => return viol("wrong size announced", format!("{}: {} for an encoding of {} bytes", name, k, n)),
            Err(f) => return viol("size computation fails", format!("{}: {:?}", name, f)),
        }
    }
    match o.to_vec(SimCtx::new(big)) {
        Ok(b) => same(&b)?,
        Err(f) => return viol("encoding fails", format!("{}: {:?}", name, f)),
    }
    for _ in 0..3 {
        let m = match below(6) {
            0 | 1 => n,
            2 => n + range(1, 40) as usize,
            3 => n.saturating_sub(1),
            4 => n / 2,
            _ => below(n as u32 + 1) as usize,
        };
        let mut out = GuardedOut::new(m);
        let r = if chance(1, 2) {
            o.to_buffer(SimCtx::new(big), out.bytes())
        } else {
            let mut c = SimCtx::new(big);
            o.to_buffer_mut(&mut c, out.bytes())
        };
        ev("buffer", m as u64, r.is_ok() as u64);
        match r {
            Ok(()) => {
                if m < n {
                    return viol("success in a buffer that is too small", format!("{}: {} of {} bytes", name, m, n));
                }
                same(&out.bytes()[..n])?;
            }
            Err(Fail::Panic(p)) => return viol("panic", format!("{} into {} bytes: {}", name, m, p)),
            Err(f) => {
                if m >= n {
                    return viol("encoding fails", format!("{} into {} bytes: {:?}", name, m, f));
                }
                if !f.is_end_of_input() {
                    return viol("too small a buffer reported as something else", format!("{} into {} bytes: {:?}", name, m, f));
                }
            }
        }
        if m > n && out.bytes()[n..].iter().any(|&b| b != 0x5C) {
            return viol("bytes past the encoding were touched", format!("{} into {} bytes, needs {}", name, m, n));
        }
    }
    Ok(())
}
/// Scripts of write operations that are the same every time.
fn c15_script() -> Res {
    let ops = wops(false, 14);
    let big = chance(1, 2);
    let (want, ..) = wmodel(&ops, big);
    ev("script", want.len() as u64, hash_bytes(&want));
    note(|| format!("big-endian={} script {:?} encoding {}", big, ops, hex(&want)));
    let x = WRun::new(vec![ops.clone()], if chance(1, 3) { Some(want.len()) } else { None });
    let mut same = |b: &[u8]| -> Res {
        if b != &want[..] {
            return viol("wrong bytes", format!("expected {} got {}", hex(&want), hex(b)));
        }
        Ok(())
    };
    c15_bounded("script", &x, big, &want, &mut same, true)?;
    count("operations compared", ops.len() as u64 * 6);
    // Without a bound.
    let mut s = SimSink::draw(want.len());
    match x.to_stream(SimCtx::new(big), &mut s) {
        Ok(()) => same(&s.out)?,
        Err(f) => return viol("encoding fails", format!("to a stream: {:?}", f)),
    }
    let mut m = MiniWriter { ctx: SimCtx::new(big), out: vec![], fail_at: None };
    match x.to_mini(&mut m) {
        Ok(()) => same(&m.out)?,
        Err(f) => return viol("encoding fails", format!("to a user writer: {:?}", f)),
    }
    let p = spot("out");
    match x.to_file(SimCtx::new(big), &p) {
        Ok(()) => same(w().disk.get(&p).unwrap_or(b"?"))?,
        Err(f) => return viol("encoding fails", format!("to a file: {:?}", f)),
    }
    // Announcements about room have to be true.
    x.reset();
    let mut out = GuardedOut::new(want.len());
    let _ = x.to_buffer(SimCtx::new(big), out.bytes());
    Ok(())
}
/// A type whose passes differ (and none of which fails), and what each pass writes.
pub fn shifty(big: bool) -> (WRun, Vec<Vec<u8>>) {
    let mut passes: Vec<Vec<WOp>> = vec![];
    let base = wops(false, 8);
    for _ in 0..range(2, 3) {
        let mut p = base.clone();
        match below(4) {
            0 => p = wops(false, 8),
            1 => {
                let n = below(p.len() as u32 + 1) as usize;
                p.truncate(n);
            }
            2 => p.push(WOp::Bytes(vec![0x31; amount(false)])),
            _ => {}
        }
        passes.push(p);
    }
    let all: Vec<Vec<u8>> = passes.iter().map(|p| wmodel(p, big).0).collect();
    let needed = if chance(1, 2) { Some(*w().tape.pick(&[0usize, 1, 20, 300, 8192, 20_000])) } else { None };
    ev("passes", all[0].len() as u64, all[1].len() as u64);
    note(|| format!("big-endian={} announces {:?}, passes {:?}", big, needed, passes));
    fired("type changes between passes");
    (WRun::new(passes, needed), all)
}
/// Types that write something else every time they are asked, or announce a wrong size.
fn c15_shifty() -> Res {
    let k = range(2, 3);
    let mut passes: Vec<Vec<WOp>> = vec![];
    let base = wops(false, 8);
    for i in 0..k {
        let mut p = base.clone();
        match below(6) {
            0 if i > 0 => p = wops(false, 8),
            1 => {
                let n = below(p.len() as u32 + 1) as usize;
                p.truncate(n);
            }
            2 => p.push(WOp::Bytes(vec![0x31; amount(false)])),
            3 => {
                let n = below(p.len() as u32 + 1) as usize;
                p.insert(n, wop(false, true));
            }
            4 => p.push(WOp::Ignore(vec![0x32; amount(true)])),
            _ => {}
        }
        if chance(1, 12) {
            p.push(WOp::Fail);
        }
        passes.push(p);
    }
    let big = chance(1, 2);
    let lens: Vec<usize> = passes.iter().map(|p| wmodel(p, big).0.len()).collect();
    let needed = match below(4) {
        0 => Some((lens[0] + below(30) as usize).saturating_sub(below(30) as usize)),
        1 => Some(*w().tape.pick(&[0usize, 1, 8192, 100_000])),
        _ => None,
    };
    ev("passes", lens[0] as u64, lens[1] as u64);
    note(|| format!("big-endian={} announces {:?}, passes {:?}", big, needed, passes));
    fired("type changes between passes");
    let x = WRun::new(passes.clone(), needed);
    let all: Vec<Vec<u8>> = passes.iter().map(|p| wmodel(p, big).0).collect();
    let own = |b: &[u8]| all.iter().any(|a| a.len() >= b.len() && a[..b.len()] == *b);
    // A skipped write leaves a gap in no valid outcome: what comes out is a beginning of one of the passes, or (where the
    // outcome of a write was ignored) made of its operations.
    let ignoring = passes.iter().flatten().any(|o| matches!(o, WOp::Ignore(_)));
    let r = if chance(1, 2) {
        x.to_vec(SimCtx::new(big))
    } else {
        let mut c = SimCtx::new(big);
        x.to_vec_mut(&mut c)
    };
    ev("vec", r.is_ok() as u64, x.passes_run() as u64);
    match r {
        Ok(b) => {
            if !ignoring && !own(&b) {
                return viol("bytes that were never written", format!("vector: {} from passes {:?}", hex(&b), all.iter().map(|a| hex(a)).collect::<Vec<_>>()));
            }
            if ignoring && cfg!(not(miri)) && has_run(&b, &all, crate::alloc::fresh()) {
                return viol("bytes that were never written", format!("vector: {}", hex(&b)));
            }
        }
        Err(Fail::Panic(p)) => return viol("panic", p),
        Err(_) => {}
    }
    x.reset();
    let m = match below(4) {
        0 => lens[0],
        1 => *lens.last().unwrap(),
        2 => below(lens[0] as u32 + 40) as usize,
        _ => needed.unwrap_or(lens[0]).min(200_000),
    };
    let mut out = GuardedOut::new(m + 24);
    let r = {
        let b = &mut out.bytes()[..m];
        x.to_buffer(SimCtx::new(big), b)
    };
    ev("buffer", m as u64, r.is_ok() as u64);
    if out.bytes()[m..].iter().any(|&b| b != 0x5C) {
        return viol("bytes past the buffer were touched", format!("buffer of {} bytes", m));
    }
    let size = needed.unwrap_or(lens[0]);
    let planned = passes[0].iter().any(|o| matches!(o, WOp::Fail));
    match r {
        Err(Fail::Panic(p)) => return viol("panic", p),
        Ok(()) if size > m && !planned => return viol("success in a buffer that is too small", format!("{} announced, {} there", size, m)),
        Ok(()) | Err(_) => {
            if m > size && needed.is_some() || m > size && !planned {
                let b = out.bytes();
                if b[size..m].iter().any(|&b| b != 0x5C) {
                    return viol("bytes past the announced size were touched", format!("buffer of {} bytes, {} announced", m, size));
                }
            }
        }
    }
    Ok(())
}
/// A run of poison that no pass could have written.
fn has_run(b: &[u8], all: &[Vec<u8>], poison: u8) -> bool {
    let longest = |b: &[u8]| {
        let mut best = 0;
        let mut n = 0;
        for &x in b {
            n = if x == poison { n + 1 } else { 0 };
            best = best.max(n);
        }
        best
    };
    let l = longest(b);
    l >= 4 && l > all.iter().map(|a| longest(a)).max().unwrap_or(0) * 2
}

// --------------------------------------------------------------------------------------------------------------- C16
pub fn c16() -> Res {
    match below(4) {
        0 | 1 => reader_case(true),
        2 => c16_write(),
        _ => c16_both(),
    }
}
fn c16_write() -> Res {
    let ops = wops(true, 12);
    let big = chance(1, 2);
    let (want, end, fails, trail, log) = wmodel(&ops, big);
    ev("script", want.len() as u64, hash_bytes(&want));
    note(|| format!("big-endian={} script {:?} encoding {}", big, ops, hex(&want)));
    // The sizing pass must not be asked about the context inside of other types: see the findings.
    let x = WRun::new(vec![ops.clone()], Some(want.len()));
    for how in 0..7u32 {
        x.reset();
        let mut c = SimCtx::new(big);
        let mut left = None;
        // `bytes_needed` counts as a pass but runs no operation.
        let r = match how {
            0 => x.to_vec(SimCtx::new(big)),
            1 => {
                let r = x.to_vec_mut(&mut c);
                left = Some(c.clone());
                r
            }
            2 => {
                let mut b = GuardedOut::new(want.len());
                x.to_buffer(SimCtx::new(big), b.bytes()).map(|_| b.bytes().to_vec())
            }
            3 => {
                let mut b = GuardedOut::new(want.len());
                let r = x.to_buffer_mut(&mut c, b.bytes()).map(|_| b.bytes().to_vec());
                left = Some(c.clone());
                r
            }
            4 => {
                let mut s = SimSink::draw(want.len());
                x.to_stream(SimCtx::new(big), &mut s).map(|_| s.out)
            }
            5 => {
                let p = spot("out");
                x.to_file(SimCtx::new(big), &p).map(|_| w().disk.get(&p).unwrap_or(b"?").to_vec())
            }
            _ => {
                let mut m = MiniWriter { ctx: SimCtx::new(big), out: vec![], fail_at: None };
                let r = x.to_mini(&mut m);
                left = Some(m.ctx);
                r.map(|_| m.out)
            }
        };
        let got: Vec<OpRes> = x.log.lock().unwrap().iter().filter(|r| matches!(r, OpRes::Ctx(..))).cloned().collect();
        ev("way", how as u64, r.is_ok() as u64);
        count("operations compared", ops.len() as u64);
        match r {
            Ok(b) => {
                if fails {
                    return viol("planned failure swallowed", format!("way {}", how));
                }
                if b != want {
                    return viol("wrong bytes", format!("way {}: expected {} got {}", how, hex(&want), hex(&b)));
                }
            }
            Err(Fail::Panic(p)) => return viol("panic", format!("way {}: {}", how, p)),
            Err(f) => {
                if !fails {
                    return viol("encoding fails", format!("way {}: {:?}", how, f));
                }
            }
        }
        if got != log {
            return viol("context seen by the type differs", format!("way {}: expected {:?} got {:?}", how, log, got));
        }
        if let Some(c) = left {
            if c.big != end || c.trail != trail {
                return viol("context not left as changed", format!("way {}: expected big={} {:?}, got {:?}", how, end, trail, c));
            }
        }
    }
    Ok(())
}
pub struct Nest {
    name: &'static str,
    s: S,
    dec: DecFn,
    obj: ObjFn,
    /// Knows its own size.
    sized: bool,
}
/// Composites with context changes at every kind of place.
fn nests() -> &'static [Nest] {
    static C: OnceLock<Vec<Nest>> = OnceLock::new();
    C.get_or_init(|| {
        use std::collections::*;
        let mut v = vec![];
        macro_rules! t { ($($n:literal $sized:literal : $t:ty;)*) => { $( {
            fn d<'a, 's>(big: bool, way: Way<'a, 's>) -> DecOut { decode::<$t>(big, way) }
            fn o(v: &Val, f: &mut dyn FnMut(&dyn DynEnc)) {
                let x: $t = <$t as Model>::from_val(v);
                f(&x);
            }
            v.push(Nest { name: $n, s: <$t as Model>::schema(), dec: d, obj: o, sized: $sized });
        } )* } }
        t! {
            "Switch" true: Switch;
            "Hand<u32>" true: Hand<u32>;
            "Hand<Hand<Nested>>" true: Hand<Hand<Nested>>;
            "Hand<Vec<u16>>" true: Hand<Vec<u16>>;
            "Hand<LenTypes>" true: Hand<LenTypes>;
            "(u16, Switch, u32)" true: (u16, Switch, u32);
            "(Switch, Vec<u32>, Switch, String)" true: (Switch, Vec<u32>, Switch, String);
            "Vec<Switch>" true: Vec<Switch>;
            "Vec<(Switch, u64)>" true: Vec<(Switch, u64)>;
            "[(u16, Switch); 3]" true: [(u16, Switch); 3];
            "Option<(Switch, u32)>" true: Option<(Switch, u32)>;
            "Result<(Switch, u16), (Switch, u32)>" true: Result<(Switch, u16), (Switch, u32)>;
            "BTreeMap<u8, (Switch, u16)>" true: BTreeMap<u8, (Switch, u16)>;
            "Box<(Switch, u32)>" true: Box<(Switch, u32)>;
            "Box<[(Switch, u32)]>" true: Box<[(Switch, u32)]>;
            "Mix<Switch>" false: Mix<Switch>;
            "Mix<(Switch, u16)>" false: Mix<(Switch, u16)>;
            "Vec<Mix<Switch>>" false: Vec<Mix<Switch>>;
            "Mix<Mix<Switch>>" false: Mix<Mix<Switch>>;
            "Range<(Switch, u16)>" true: std::ops::Range<(Switch, u16)>;
            "(Switch, [u32; 5], Nested)" true: (Switch, [u32; 5], Nested);
            "(Switch, RawHolder)" true: (Switch, RawHolder);
            "(Switch, Vec<RawC>, Switch, Vec<RawC>)" true: (Switch, Vec<RawC>, Switch, Vec<RawC>);
            "(Switch, LenTypes, Switch, Varints)" true: (Switch, LenTypes, Switch, Varints);
            "(Switch, Mixed)" true: (Switch, Mixed);
            "(Switch, Arrays, Switch, Peek32)" true: (Switch, Arrays, Switch, Peek32);
            "(Switch, HashMap<u16, u32>, Switch, f64)" true: (Switch, HashMap<u16, u32>, Switch, f64);
            "(u128, Switch, u128, i128)" true: (u128, Switch, u128, i128);
            "(Switch, TagU16, Switch, TagU64)" true: (Switch, TagU16, Switch, TagU64);
            "SmallVec<[(Switch, u16); 2]>" true: smallvec::SmallVec<[(Switch, u16); 2]>;
            "(Switch, Duration, Switch, Uuid)" true: (Switch, std::time::Duration, Switch, uuid::Uuid);
        }
        v
    })
}
/// A context-changing composite: encoded, decoded everywhere, and cut short.
fn c16_both() -> Res {
    let n = w().tape.pick(nests());
    ev(n.name, 0, 0);
    let big = chance(1, 2);
    let v = Gen { budget: 40, depth: 0, big: false }.val(&mut w().tape, &n.s);
    let mut e = Enc::new(big);
    e.val(&n.s, &v);
    let (want, end) = (e.out, e.big);
    let trail: Vec<u32> = e.flips.iter().map(|&b| b as u32).collect();
    let hashed = traits(&n.s).hashed;
    ev("value", want.len() as u64, hash_bytes(&want));
    note(|| format!("{} {} big-endian={} encoding {}", n.name, v.short(), big, hex(&want)));
    let mut res = Ok(());
    (n.obj)(&v, &mut |o| res = c16_encode(n, o, big, &want, end, &trail, hashed));
    res?;
    let mut data = want.clone();
    match below(4) {
        0 | 1 => {}
        2 => {
            let k = below(data.len() as u32 + 1) as usize;
            data.truncate(k);
            fired("truncation");
        }
        _ => mutate(&mut data),
    }
    let mut d = Dec::new(&data, big);
    let r = d.val(&n.s);
    let x = expect_s(&n.s, &data, big);
    for &how in ALL_HOW {
        if matches!(how, How::CopyMut | How::Mini) {
            let mut cx = SimCtx::new(big);
            let o = if how == How::CopyMut {
                (n.dec)(big, Way::CopyMut(&data, &mut cx))
            } else {
                let mut m = MiniReader::new(&data);
                let o = (n.dec)(big, Way::Mini(&mut m));
                cx = m.ctx;
                o
            };
            compare(n.name, how, &x, &o, false)?;
            let t: Vec<u32> = d.flips.iter().map(|&b| b as u32).collect();
            if r.is_ok() {
                if cx.trail != t || cx.big != d.big {
                    return viol("context not left as changed", format!("{} by {:?}: expected big={} {:?}, got {:?}", n.name, how, d.big, t, cx));
                }
            } else if cx.trail.len() > t.len() || cx.trail[..] != t[..cx.trail.len()] || cx.big != cx.trail.last().map(|&b| b == 1).unwrap_or(big) {
                // How far a failing decode gets may depend on the reader, in which order it changes things may not.
                return viol("context not left as changed", format!("{} by {:?}: expected a beginning of {:?}, got {:?}", n.name, how, t, cx));
            }
        } else {
            let (o, _) = run_dec(n.dec, big, &data, how);
            compare(n.name, how, &x, &o, false)?;
        }
    }
    Ok(())
}
fn c16_encode(n: &Nest, o: &dyn DynEnc, big: bool, want: &[u8], end: bool, trail: &[u32], hashed: bool) -> Res {
    let ways: &[u32] = if n.sized { &[0, 1, 2, 3, 4, 5, 6] } else { &[4, 5, 6] };
    for &how in ways {
        let mut left = None;
        let mut c = SimCtx::new(big);
        let r = match how {
            0 => o.to_vec(c),
            1 => {
                let r = o.to_vec_mut(&mut c);
                left = Some(c);
                r
            }
            2 => {
                let mut b = vec![0; want.len()];
                o.to_buffer(c, &mut b).map(|_| b)
            }
            3 => {
                let mut b = vec![0; want.len()];
                let r = o.to_buffer_mut(&mut c, &mut b).map(|_| b);
                left = Some(c);
                r
            }
            4 => {
                let mut s = SimSink::draw(want.len());
                o.to_stream(c, &mut s).map(|_| s.out)
            }
            5 => {
                let p = spot("out");
                o.to_file(c, &p).map(|_| w().disk.get(&p).unwrap_or(b"?").to_vec())
            }
            _ => {
                let mut m = MiniWriter { ctx: c, out: vec![], fail_at: None };
                let r = o.to_mini(&mut m);
                left = Some(m.ctx);
                r.map(|_| m.out)
            }
        };
        match r {
            Ok(b) if b == want => {}
            Ok(b) if hashed && b.len() == want.len() && expect_s(&n.s, &b, big).want != Want::Bad => {}
            Ok(b) => return viol("wrong bytes", format!("{} way {}: expected {} got {}", n.name, how, hex(want), hex(&b))),
            Err(Fail::Panic(p)) => return viol("panic", format!("{} way {}: {}", n.name, how, p)),
            Err(f) => return viol("encoding fails", format!("{} way {}: {:?}", n.name, how, f)),
        }
        if let Some(c) = left {
            if c.big != end || c.trail != trail {
                return viol("context not left as changed", format!("{} way {}: expected big={} {:?}, got {:?}", n.name, how, end, trail, c));
            }
        }
    }
    Ok(())
}
fn d16_sizing() -> Res {
    // The pass that computes the size of a derived type has no context to offer.
    let x = <Mix<Switch> as Model>::from_val(&Gen { budget: 8, depth: 0, big: false }.val(&mut w().tape, &<Mix<Switch> as Model>::schema()));
    let mut s = SimSink::draw(64);
    if let Err(f) = x.to_stream(SimCtx::new(false), &mut s) {
        return viol("encoding a derived type with a field that uses its context to a stream", format!("{:?}", f));
    }
    match x.to_vec(SimCtx::new(false)) {
        Ok(b) if b == s.out => {}
        Ok(b) => return viol("wrong bytes", hex(&b)),
        Err(f) => return viol("encoding a derived type with a field that uses its context to a vector", format!("{:?}", f)),
    }
    let mut b = vec![0; s.out.len()];
    match x.to_buffer(SimCtx::new(false), &mut b) {
        Ok(()) => Ok(()),
        Err(f) => viol("encoding a derived type with a field that uses its context to a buffer", format!("{:?}", f)),
    }
}
pub const D16: &[(&str, fn() -> Res)] = &[("context-while-sizing-derived", d16_sizing)];
