//! The properties: what one simulated run of each does and what it checks.
use crate::api::*;
use crate::base::*;
use crate::custom::*;
use crate::model::*;
use crate::os::*;
use crate::stream::*;
use crate::types::*;
use std::sync::OnceLock;

// ---------------------------------------------------------------------------------------------------------------
pub struct Corpus(Vec<(OnceLock<Entry>, Make)>);
impl Corpus {
    pub fn new(v: Vec<Make>) -> Self {
        Corpus(v.into_iter().map(|m| (OnceLock::new(), m)).collect())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> &Entry {
        let (c, m) = &self.0[i];
        c.get_or_init(m)
    }
    pub fn iter(&self) -> impl Iterator<Item = &Entry> {
        (0..self.len()).map(|i| self.get(i))
    }
    /// One of them, all alike.
    pub fn any(&self) -> &Entry {
        self.get(below(self.len() as u32) as usize)
    }
}
pub fn entries() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| Corpus::new(corpus()))
}
pub fn aligned() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| Corpus::new(corpus_aligned()))
}
pub fn windows() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| Corpus::new(corpus_windows()))
}
/// A type with overlapping peeked tags and an input for it.
pub fn overlapping() -> (&'static Entry, Vec<u8>) {
    let e = windows().any();
    ev(e.name, 0, 0);
    let mut data = vec![below(9) as u8];
    let main = range(1, 2) as u8;
    for _ in 0..below(16) {
        data.push(if chance(1, 12) { below(4) as u8 } else { main });
    }
    ev("input", data.len() as u64, hash_bytes(&data));
    note(|| format!("type {} input {}", e.name, hex(&data)));
    (e, data)
}
pub fn by_name(n: &str) -> &'static Entry {
    entries().iter().chain(aligned().iter()).chain(windows().iter()).find(|e| e.name == n).unwrap_or_else(|| panic!("sim: no entry {}", n))
}
/// A random corpus type among those that pass the filter.
pub fn pick(f: impl Fn(&Entry) -> bool) -> &'static Entry {
    let c = entries();
    let k = below(c.len() as u32) as usize;
    for d in 0..c.len() {
        let e = c.get((k + d) % c.len());
        if f(e) {
            ev(e.name, 0, 0);
            note(|| format!("type {}", e.name));
            return e;
        }
    }
    panic!("sim: filter matches nothing");
}
pub fn draw_big(e: &Entry) -> bool {
    chance(1, 2) && !e.le_only
}
/// A value and its documented encoding.
pub fn sample(e: &Entry, big: bool, large: bool) -> (Val, Vec<u8>) {
    let v = e.gen(large);
    let d = encode(&e.s, &v, big);
    ev("value", d.len() as u64, hash_bytes(&d));
    note(|| format!("value {} big-endian={} encoding {}", v.short(), big, hex(&d)));
    (v, d)
}
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Ok(Val),
    Eof,
    Bad,
}
pub struct Expect {
    pub want: Want,
    pub pos: usize,
    pub extent: usize,
    pub saw_eof: bool,
}
pub fn expect(e: &Entry, data: &[u8], big: bool) -> Expect {
    expect_s(&e.s, data, big)
}
pub fn expect_s(s: &S, data: &[u8], big: bool) -> Expect {
    let mut d = Dec::new(data, big);
    let r = d.val(s);
    let want = match r {
        Ok(v) => Want::Ok(v),
        Err(DErr::Eof) => Want::Eof,
        Err(DErr::Bad(_)) => Want::Bad,
    };
    Expect { want, pos: d.pos, extent: d.extent(), saw_eof: d.saw_eof }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Buf,
    BufLen,
    Copy,
    CopyLen,
    CopyMut,
    U,
    B,
    File,
    Mini,
}
/// Files are mapped into memory, which the interpreter of other machines cannot do.
#[cfg(miri)]
pub const ALL_HOW: &[How] = &[How::Buf, How::BufLen, How::Copy, How::CopyLen, How::CopyMut, How::U, How::B, How::Mini, How::Mini];
#[cfg(not(miri))]
pub const ALL_HOW: &[How] = &[How::Buf, How::BufLen, How::Copy, How::CopyLen, How::CopyMut, How::U, How::B, How::File, How::Mini];
pub fn hows(e: &Entry) -> &'static [How] {
    if e.borrowed {
        &ALL_HOW[..2]
    } else {
        ALL_HOW
    }
}
/// Decodes by one entry point; streams get a delivery drawn from the tape. Also says how many bytes were delivered.
pub fn run_how(e: &Entry, big: bool, data: &[u8], how: How) -> (DecOut, usize) {
    run_dec(e.dec, big, data, how)
}
pub fn run_dec(dec: DecFn, big: bool, data: &[u8], how: How) -> (DecOut, usize) {
    let n = data.len();
    match how {
        How::Buf => (dec(big, Way::Buf(data)), n),
        How::BufLen => (dec(big, Way::BufLen(data)), n),
        How::Copy => (dec(big, Way::Copy(data)), n),
        How::CopyLen => (dec(big, Way::CopyLen(data)), n),
        How::CopyMut => {
            let mut c = SimCtx::new(big);
            (dec(big, Way::CopyMut(data, &mut c)), n)
        }
        How::U | How::B => {
            let mut s = SimStream::draw(data);
            note(|| format!("{:?}: {}", how, s.describe()));
            let o = if how == How::U { dec(big, Way::StreamU(&mut s)) } else { dec(big, Way::StreamB(&mut s)) };
            (o, s.pos)
        }
        How::File => {
            let p = w().disk.put("in", data.to_vec());
            (dec(big, Way::File(&p)), n)
        }
        How::Mini => {
            let mut m = MiniReader::new(data);
            (dec(big, Way::Mini(&mut m)), n)
        }
    }
}
pub fn bad_out(what: &str, name: &str, how: &str, want: &str, got: &DecOut) -> Res {
    viol(what.to_string(), format!("{} by {}: expected {}, got {}", name, how, want, got.short()))
}
/// Compares an outcome with the reference. `strict`: an end of input must be reported as one.
pub fn compare(name: &str, how: How, x: &Expect, got: &DecOut, strict: bool) -> Res {
    let h = format!("{:?}", how);
    if let Err(f) = &got.r {
        match f {
            Fail::Panic(p) => return viol("panic", format!("{} by {}: {}", name, h, p)),
            Fail::Planned(p) => return viol(format!("stuck: {}", p), format!("{} by {}: {}", name, h, p)),
            _ => {}
        }
    }
    match (&x.want, &got.r) {
        (Want::Ok(v), Ok(g)) => {
            if v != g {
                return bad_out("wrong value", name, &h, &v.short(), got);
            }
            if let Some(u) = got.used {
                if u != x.pos {
                    return bad_out("wrong length", name, &h, &format!("{} bytes consumed", x.pos), got);
                }
            }
            Ok(())
        }
        (Want::Ok(v), Err(_)) => bad_out("fails on a valid input", name, &h, &v.short(), got),
        (Want::Eof, Ok(_)) => bad_out("value from truncated input", name, &h, "an end of input", got),
        (Want::Bad, Ok(_)) => bad_out("value from invalid input", name, &h, "an error", got),
        (Want::Eof, Err(f)) if strict && !f.is_end_of_input() => bad_out("end of input reported as something else", name, &h, "an end of input", got),
        _ => Ok(()),
    }
}
fn junk(max: u32) -> Vec<u8> {
    let max = if crate::SMALL { max.min(24) } else { max };
    let n = below(max + 1) as usize;
    let mut b = vec![0; n];
    Rng::new(below(1 << 20) as u64).fill(&mut b);
    b
}
const NASTY: &[u64] = &[0, 1, 2, 127, 128, 255, 256, 0xFFFF, 0x1_0000, 0x0100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 32, u64::MAX >> 1, 1 << 63, u64::MAX, u64::MAX / 2 + 2, u64::MAX / 4 + 1, 0x2000_0000_0000_0000];
/// Corrupts an input.
pub fn mutate(data: &mut Vec<u8>) {
    for _ in 0..range(1, 3) {
        let n = data.len() as u32;
        let at = below(n.max(1)) as usize;
        match below(9) {
            0 => data.truncate(at),
            1 => data.extend(junk(24)),
            2 if n > 0 => data[at] ^= 1 << below(8),
            3 if n > 0 => data[at] = *w().tape.pick(&[0u8, 1, 2, 127, 128, 254, 255]),
            4 => {
                let b = below(256) as u8;
                data.insert(at.min(data.len()), b)
            }
            5 if n > 0 => {
                data.remove(at);
            }
            6 | 7 => {
                let v = *w().tape.pick(NASTY);
                let k = *w().tape.pick(&[1usize, 2, 4, 8]);
                let big = chance(1, 2);
                let mut b = v.to_le_bytes();
                let s = if big {
                    b.reverse();
                    b[8 - k..].to_vec()
                } else {
                    b[..k].to_vec()
                };
                for (i, x) in s.iter().enumerate() {
                    if at + i < data.len() {
                        data[at + i] = *x;
                    } else if i == 0 || chance(1, 2) {
                        data.push(*x);
                    }
                }
            }
            _ if n > 0 => {
                // Swap two pieces.
                let k = below(n) as usize;
                data.rotate_left(k);
            }
            _ => {}
        }
    }
    ev("mutated", data.len() as u64, hash_bytes(data));
    note(|| format!("input becomes {}", hex(data)));
    count("corrupted inputs", 1);
}
/// An encoding in which one length is a lie.
pub fn lying(e: &Entry, v: &Val, big: bool) -> Vec<u8> {
    let mut c = Enc::new(big);
    c.val(&e.s, v);
    if c.lens == 0 {
        return c.out;
    }
    let at = below(c.lens as u32) as usize;
    let with = match below(5) {
        0 => Lie::Is(*w().tape.pick(NASTY)),
        1 => Lie::Is(1u64 << below(64)),
        2 => Lie::Is(below(100_000) as u64 * 1000),
        3 => Lie::Off([1, u64::MAX, 2, u64::MAX - 1][below(4) as usize]),
        _ => Lie::Off(1u64 << range(7, 63)),
    };
    let mut c = Enc::new(big);
    c.lie = Some((at, with));
    c.val(&e.s, v);
    fired("lying length");
    ev("lie", at as u64, match with {
        Lie::Is(x) => x,
        Lie::Off(x) => x ^ 0x5555,
    });
    c.out
}
/// Valid, corrupted, lying or random bytes for a type.
pub fn hostile(e: &Entry, big: bool, large: bool) -> Vec<u8> {
    let mut d = match below(8) {
        0 => {
            count("random inputs", 1);
            junk(60)
        }
        1 | 2 => {
            let v = e.gen(large);
            lying(e, &v, big)
        }
        _ => {
            let (_, mut d) = sample(e, big, large);
            mutate(&mut d);
            d
        }
    };
    if e.t.recursive {
        d.truncate(3000);
    }
    ev("input", d.len() as u64, hash_bytes(&d));
    note(|| format!("big-endian={} input {}", big, hex(&d)));
    d
}
fn outcome_hash(o: &DecOut) -> u64 {
    match &o.r {
        Ok(v) => hash_bytes(v.short().as_bytes()),
        Err(Fail::Err { eof, .. }) => 1 + *eof as u64,
        Err(_) => 9,
    }
}

// --------------------------------------------------------------------------------------------------------------- C01
fn c01_input(e: &Entry, big: bool) -> Vec<u8> {
    let (_, mut data) = sample(e, big, chance(1, 3));
    if chance(1, 3) && !e.t.zero_elem {
        mutate(&mut data);
        if e.t.recursive {
            data.truncate(3000);
        }
    } else if chance(1, 2) {
        data.extend(junk(40));
    }
    data
}
pub fn c01() -> Res {
    let (e, big, data) = if chance(1, 40) {
        let (e, d) = overlapping();
        (e, chance(1, 2), d)
    } else {
        let e = pick(|e| !e.borrowed);
        let big = draw_big(e);
        (e, big, c01_input(e, big))
    };
    let x = expect(e, &data, big);
    let mut seen: [Option<DecOut>; 2] = [None, None];
    let k = range(2, 4);
    for i in 0..k {
        let how = if (i + below(2)) % 2 == 0 { How::U } else { How::B };
        let (o, _) = run_how(e, big, &data, how);
        ev("outcome", outcome_hash(&o), 0);
        compare(e.name, how, &x, &o, false)?;
        let slot = &mut seen[(how == How::B) as usize];
        if let Some(p) = slot {
            let same = match (&p.r, &o.r) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => {
                    a.is_end_of_input() == b.is_end_of_input()
                        && match (a, b) {
                            (Fail::Err { text: s, .. }, Fail::Err { text: t, .. }) if !a.is_end_of_input() => s == t,
                            _ => true,
                        }
                }
                _ => false,
            };
            if !same {
                return viol("two deliveries differ", format!("{} by {:?}: {} and {}", e.name, how, p.short(), o.short()));
            }
        }
        *slot = Some(o);
    }
    Ok(())
}
pub const D01: &[(&str, fn() -> Res)] = &[];

// --------------------------------------------------------------------------------------------------------------- C02
pub fn c02() -> Res {
    let n = range(1, 6);
    let mut data = vec![];
    let mut items: Vec<(&'static Entry, bool, Val, usize)> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let e = pick(|e| !e.borrowed && (last || !e.t.eof_sensitive));
        let big = draw_big(e);
        let (v, d) = sample(e, big, chance(1, 6));
        data.extend(d);
        items.push((e, big, v, data.len()));
        if e.t.eof_sensitive {
            break;
        }
    }
    if !items.last().unwrap().0.t.eof_sensitive {
        data.extend(junk(20));
    }
    let mut s = SimStream::draw(&data);
    note(|| s.describe());
    for (i, (e, big, v, end)) in items.iter().enumerate() {
        let o = (e.dec)(*big, Way::StreamU(&mut s));
        ev("at", s.pos as u64, i as u64);
        let x = Expect { want: Want::Ok(v.clone()), pos: 0, extent: 0, saw_eof: false };
        compare(e.name, How::U, &x, &o, false)?;
        if s.pos != *end {
            return viol("stream left at the wrong place", format!("{} (value {} of the sequence): the stream stands at {} instead of {}", e.name, i, s.pos, end));
        }
    }
    Ok(())
}
/// A long vector of elements with no bytes: decoding used to skip them.
fn d02_zst() -> Res {
    #[derive(speedy::Readable, speedy::Writable, Clone, Debug)]
    struct Tagged {
        #[speedy(constant_prefix = 7_u8)]
        nothing: (),
    }
    use speedy::Readable;
    let data = [2, 0, 0, 0, 7, 7, 9];
    let mut s = SimStream::plain(&data);
    let r = guard(|| Vec::<Tagged>::read_from_stream_unbuffered_with_ctx(SimCtx::new(false), &mut s));
    match r {
        Ok(v) if v.len() == 2 && s.pos == 6 => Ok(()),
        o => viol("zero-sized elements", format!("{:?} at {}", o.map(|v| v.len()), s.pos)),
    }
}
pub const D02: &[(&str, fn() -> Res)] = &[("zero-sized-elements", d02_zst)];

// --------------------------------------------------------------------------------------------------------------- C04
pub fn c04() -> Res {
    let e = pick(|_| true);
    let big = draw_big(e);
    let (_, data) = sample(e, big, chance(1, 12));
    let mut cuts: Vec<usize> = if data.len() <= 24 {
        (0..=data.len()).collect()
    } else {
        let mut c: Vec<usize> = (0..16).map(|_| below(data.len() as u32 + 1) as usize).collect();
        c.extend([0, 1, data.len() - 1, data.len() - 2, data.len() / 2, data.len()]);
        c.sort();
        c.dedup();
        c
    };
    if chance(1, 2) {
        cuts.reverse();
    }
    let hs = hows(e);
    for cut in cuts {
        let part = &data[..cut];
        let x = expect(e, part, big);
        ev("cut", cut as u64, matches!(x.want, Want::Eof) as u64);
        if x.want == Want::Eof {
            fired("truncation");
        }
        let g = Guarded::new(part, 0);
        for &how in hs {
            // Files and repeated streams cost more: sampled.
            if how == How::File && !chance(1, 4) {
                continue;
            }
            let (o, _) = run_how(e, big, g.bytes(), how);
            let r = compare(e.name, how, &x, &o, true);
            if cut == data.len() && !o.r.as_ref().map_or(false, |v| matches!(&x.want, Want::Ok(m) if m != v)) {
                // Nothing is missing: how complete input is decoded is not at issue here.
                continue;
            }
            r?;
        }
    }
    Ok(())
}
fn d_all(name: &str, data: &[u8]) -> Res {
    let e = by_name(name);
    let x = expect(e, data, false);
    for &how in hows(e) {
        let (o, _) = run_how(e, false, data, how);
        compare(e.name, how, &x, &o, x.want == Want::Eof)?;
    }
    Ok(())
}
fn d04_leftover() -> Res {
    // Bytes left over in front of an end hit inside a defaulted field are not parsed again.
    d_all("Doe", &[1, 2])?;
    d_all("DoeVec", &[9, 0, 0, 0, 1])?;
    d_all("Doe", &[1, 2, 0, 3])
}
fn d04_option() -> Res {
    d_all("DoeOpt", &[1, 1, 0, 0, 0, 0, 1, 5, 0])
}
pub const D04: &[(&str, fn() -> Res)] = &[("leftover-bytes", d04_leftover), ("option-length-cut", d04_option)];

// --------------------------------------------------------------------------------------------------------------- C05
pub fn c05() -> Res {
    let e = pick(|e| !e.borrowed);
    let big = draw_big(e);
    let (v, mut data) = sample(e, big, chance(1, 5));
    let x0 = expect(e, &data, big);
    if !x0.saw_eof && !e.t.eof_sensitive && chance(1, 2) {
        data.extend(junk(30));
    }
    let x = expect(e, &data, big);
    let need = x.extent;
    for _ in 0..range(1, 4) {
        let p = Planted::draw();
        let at = match below(5) {
            0 => below(data.len() as u32 + 1) as usize,
            1 => need,
            2 => need.saturating_sub(1),
            3 => 0,
            _ => below(need as u32 + 1) as usize,
        };
        let how = if chance(1, 2) { How::B } else { How::U };
        let mut s = SimStream::draw(&data);
        s.err = Some((at, p.clone()));
        s.transient = chance(1, 3);
        note(|| format!("{:?}: {}", how, s.describe()));
        let o = if how == How::U { (e.dec)(big, Way::StreamU(&mut s)) } else { (e.dec)(big, Way::StreamB(&mut s)) };
        ev("hit", s.err_hits, at as u64);
        let must = at < need || x.saw_eof;
        match &o.r {
            Err(Fail::Panic(t)) => return viol("panic", format!("{}: {}", e.name, t)),
            Err(Fail::Planned(t)) => return viol(format!("stuck: {}", t), e.name),
            Err(Fail::Err { io, text, .. }) => {
                if s.err_hits == 0 {
                    // Not caused by the stream: how the value itself is decoded is not at issue here.
                    count("~decodes that failed before the planted error", 1);
                    continue;
                }
                if !must {
                    return viol("a failure after the value was complete", format!("{} by {:?}: {} with the error planted at {} and {} bytes needed", e.name, how, text, at, need));
                }
                if io.as_ref() != Some(&p.id()) {
                    return viol("stream failure not passed on unchanged", format!("{} by {:?}: planted {:?} at {} of {}, reported {:?} ({})", e.name, how, p, at, need, io, text));
                }
            }
            Ok(g) => {
                if must {
                    return viol("stream failure swallowed", format!("{} by {:?}: planted {:?} at {} of {} needed bytes ({} hits), got {}", e.name, how, p, at, need, s.err_hits, g.short()));
                }
                let _ = (g, &v);
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C06
/// The library's encoding of a value, checked against the reference (any order inside hashed containers).
pub fn lib_bytes(e: &Entry, v: &Val, big: bool, x: &dyn DynEnc) -> Result<Vec<u8>, Viol> {
    let out = match x.to_vec(SimCtx::new(big)) {
        Ok(b) => b,
        Err(f) => return viol("encoding fails", format!("{} {}: {:?}", e.name, v.short(), f)),
    };
    check_bytes(e, v, big, &out)?;
    Ok(out)
}
pub fn check_bytes(e: &Entry, v: &Val, big: bool, out: &[u8]) -> Res {
    if e.t.hashed {
        let x = expect(e, out, big);
        let same_len = encode(&e.s, v, big).len() == out.len();
        if x.want != Want::Ok(v.clone()) || x.pos != out.len() || !same_len {
            return viol("wrong encoding", format!("{} {}: {}", e.name, v.short(), hex(out)));
        }
    } else {
        let want = encode(&e.s, v, big);
        if want != out {
            return viol("wrong encoding", format!("{} {}: expected {} got {}", e.name, v.short(), hex(&want), hex(out)));
        }
    }
    Ok(())
}
/// A value which does not fit its own declared lengths has no encoding: every way of encoding it says so.
pub fn unfit() -> Res {
    let (e, v) = loop {
        let e = pick(|e| e.t.lens);
        let mut v = e.gen(false);
        let mut n = 0;
        misfit(&e.s, &mut v, &mut n, u32::MAX);
        if n == 0 {
            continue;
        }
        let at = below(n);
        misfit(&e.s, &mut v, &mut 0, at);
        break (e, v);
    };
    let big = draw_big(e);
    fired("value does not fit its declared length");
    ev("unfit", hash_bytes(v.short().as_bytes()), 0);
    note(|| format!("value {} big-endian={}", v.short(), big));
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |x| {
        res = unfit_obj(e, big, x);
    });
    res
}
fn unfit_obj(e: &Entry, big: bool, x: &dyn DynEnc) -> Res {
    let cx = || SimCtx::new(big);
    let must = |how: &str, r: Result<(), Fail>| match r {
        Ok(()) => viol("success for a value that has no encoding", format!("{}: {}", e.name, how)),
        Err(Fail::Panic(p)) => viol("panic", format!("{}: {}: {}", e.name, how, p)),
        Err(Fail::Planned(p)) => viol(format!("stuck: {}", p), e.name),
        Err(Fail::Err { io: Some(io), .. }) => viol("reported as a failure of the sink", format!("{}: {}: {:?}", e.name, how, io)),
        Err(Fail::Err { .. }) => Ok(()),
    };
    must("to a vector", x.to_vec(cx()).map(|_| ()))?;
    must("to a vector, borrowing the context", x.to_vec_mut(&mut cx()).map(|_| ()))?;
    let mut s = SimSink::draw(200);
    must("to a stream", x.to_stream(cx(), &mut s))?;
    let mut m = MiniWriter { ctx: cx(), out: vec![], fail_at: None };
    must("to a user writer", x.to_mini(&mut m))?;
    let p = spot("out");
    must("to a file", x.to_file(cx(), &p))?;
    let mut out = GuardedOut::new(*w().tape.pick(&[0usize, 1, 50, 3000, 70_000]));
    must("to a buffer", x.to_buffer(cx(), out.bytes()))?;
    must("to a buffer, borrowing the context", x.to_buffer_mut(&mut cx(), out.bytes()))
}
pub fn c06() -> Res {
    match below(24) {
        22 => return unfit(),
        23 => return c06_shifty(),
        _ => {}
    }
    let e = pick(|_| true);
    let big = draw_big(e);
    let v = e.gen(chance(1, 4));
    let mut res = Ok(());
    (e.obj.unwrap())(&v, &mut |x| {
        res = c06_obj(e, &v, big, x);
    });
    res
}
/// The sink gets what one pass over the value wrote, whatever the value announced before.
fn c06_shifty() -> Res {
    let big = chance(1, 2);
    let (x, all) = crate::props_scripts::shifty(big);
    let n = all.iter().map(|a| a.len()).max().unwrap_or(0);
    let mut s = SimSink::draw(n);
    if chance(1, 2) {
        s.err = Some((below(n as u32 + 1) as usize, Planted::draw()));
        s.transient = chance(1, 2);
    }
    fired("value that changes between passes");
    let r = x.to_stream(SimCtx::new(big), &mut s);
    ev("accepted", s.out.len() as u64, r.is_ok() as u64);
    let ok = match &r {
        Ok(()) => s.err_hits == 0 && all.contains(&s.out),
        Err(Fail::Err { io, .. }) => {
            if s.err_hits > 0 && *io != s.err.as_ref().map(|x| x.1.id()) {
                return viol("sink failure not passed on unchanged", format!("type that changes: planted {:?}, got {:?}", s.err, r));
            }
            all.iter().any(|a| a.len() >= s.out.len() && s.out[..] == a[..s.out.len()])
        }
        Err(Fail::Panic(p)) => return viol("panic", format!("type that changes: {}", p)),
        Err(Fail::Planned(p)) => return viol(format!("stuck: {}", p), "type that changes"),
    };
    if !ok {
        return viol("the sink got something else", format!("type that changes: {:?} with {} bytes, the passes wrote {:?}: {}", r, s.out.len(), all.iter().map(|a| a.len()).collect::<Vec<_>>(), hex(&s.out)));
    }
    Ok(())
}
fn c06_obj(e: &Entry, v: &Val, big: bool, x: &dyn DynEnc) -> Res {
    let want = lib_bytes(e, v, big, x)?;
    ev("encoding", want.len() as u64, hash_bytes(&want));
    note(|| format!("value {} encoding {}", v.short(), hex(&want)));
    let n = want.len();
    for _ in 0..range(1, 4) {
        let mut s = SimSink::draw(n);
        let at = match below(4) {
            0 => below(n as u32 + 2) as usize,
            1 => n,
            2 => n.saturating_sub(1),
            _ => below(n as u32 + 1) as usize,
        };
        let mut planted = None;
        match below(4) {
            0 => {}
            1 | 2 => {
                let p = Planted::draw();
                s.err = Some((at, p.clone()));
                s.transient = chance(1, 2);
                planted = Some(p);
            }
            _ => s.zero_at = Some(at),
        }
        let what = format!("error {:?}, accepts nothing from {:?}, transient {}", s.err, s.zero_at, s.transient);
        note(|| what.clone());
        let r = x.to_stream(SimCtx::new(big), &mut s);
        ev("accepted", s.out.len() as u64, r.is_ok() as u64);
        if s.out.len() > n || s.out[..] != want[..s.out.len()] {
            return viol("the sink got something else", format!("{}: {} where the encoding is {} ({})", e.name, hex(&s.out), hex(&want), what));
        }
        let must_fail = (s.err.is_some() || s.zero_at.is_some()) && at < n;
        match r {
            Ok(()) => {
                if s.out.len() != n {
                    return viol("success without delivering everything", format!("{}: {} of {} bytes ({})", e.name, s.out.len(), n, what));
                }
                if must_fail {
                    return viol("sink failure swallowed", format!("{} ({})", e.name, what));
                }
            }
            Err(Fail::Panic(p)) => return viol("panic", format!("{}: {}", e.name, p)),
            Err(Fail::Planned(p)) => return viol(format!("stuck: {}", p), e.name),
            Err(Fail::Err { io, text, .. }) => {
                if !must_fail {
                    return viol("fails without cause", format!("{}: {} ({})", e.name, text, what));
                }
                if let Some(p) = planted {
                    if io != Some(p.id()) {
                        return viol("sink failure not passed on unchanged", format!("{}: planted {:?}, reported {:?} {}", e.name, p, io, text));
                    }
                }
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C10
pub fn c10() -> Res {
    if chance(1, 10) {
        return c10_aligned();
    }
    let e = pick(|e| !e.t.zero_elem);
    let big = draw_big(e);
    let data = hostile(e, big, chance(1, 6));
    if !e.borrowed && chance(1, 4) {
        return c10_stream(e, big, &data);
    }
    let x = expect(e, &data, big);
    ev("expect", matches!(x.want, Want::Ok(_)) as u64, matches!(x.want, Want::Eof) as u64);
    let hs = hows(e);
    let shift = if chance(1, 2) { below(9) as usize } else { 0 };
    let g = Guarded::new(&data, shift);
    for _ in 0..3 {
        let how = *w().tape.pick(hs);
        let (o, _) = run_how(e, big, g.bytes(), how);
        harmless(e, how, &x, &o)?;
    }
    Ok(())
}
/// An error or a valid value made of the input: which of several valid values is not at issue here.
fn harmless(e: &Entry, how: How, x: &Expect, o: &DecOut) -> Res {
    match (&x.want, &o.r) {
        (Want::Ok(_), Err(Fail::Err { .. })) => Ok(()),
        (Want::Ok(m), Ok(v)) if m != v => {
            // Valid in itself if it survives being written and read again by the reference.
            let ok = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode(&e.s, v, false))) {
                Ok(b) => e.t.eof_sensitive || e.t.peeks || expect(e, &b, false).want == Want::Ok(v.clone()),
                Err(_) => {
                    w().panic_text = None;
                    false
                }
            };
            if ok {
                Ok(())
            } else {
                viol("not a value of the type", format!("{} by {:?}: {}", e.name, how, o.short()))
            }
        }
        _ => compare(e.name, how, x, o, false),
    }
}
/// Borrowed slices of wider elements: the value, or an error when the input is not aligned for them.
fn c10_aligned() -> Res {
    let e = aligned().any();
    ev(e.name, 0, 0);
    let big = draw_big(e);
    let data = if chance(1, 3) { hostile(e, big, false) } else { sample(e, big, false).1 };
    let g = Guarded::new(&data, below(9) as usize);
    let x = expect(e, &data, big);
    for how in [How::Buf, How::BufLen] {
        let (o, _) = run_how(e, big, g.bytes(), how);
        ev("outcome", outcome_hash(&o), 0);
        match &o.r {
            // Not aligned (or not native byte order): an error is fine, a different value is not.
            Err(Fail::Err { .. }) => {}
            _ => harmless(e, how, &x, &o)?,
        }
    }
    Ok(())
}
/// Streams that do not keep their own contract.
fn c10_stream(e: &Entry, big: bool, data: &[u8]) -> Res {
    if chance(1, 4) {
        return c10_unwritten(e, big, data);
    }
    let mut s = SimStream::draw(data);
    let k = below(6) as u64;
    s.bad = Some(match below(3) {
        0 => Misbehave::EarlyEof(k),
        1 => Misbehave::Unfilled(k),
        _ => Misbehave::Over(k, *w().tape.pick(&[1usize, 2, 7, 100, 8192, 1 << 20, usize::MAX])),
    });
    note(|| s.describe());
    let how = if chance(1, 2) { How::U } else { How::B };
    let o = if how == How::U { (e.dec)(big, Way::StreamU(&mut s)) } else { (e.dec)(big, Way::StreamB(&mut s)) };
    ev("outcome", outcome_hash(&o), s.bad_hit as u64);
    match &o.r {
        Err(Fail::Panic(p)) if matches!(s.bad, Some(Misbehave::Over(..))) && s.bad_hit && !p.contains("misaligned reference") => Ok(()),
        Err(Fail::Panic(p)) => viol("panic", format!("{} by {:?} with {:?}: {}", e.name, how, s.bad, p)),
        Err(Fail::Planned(p)) => viol(format!("stuck: {}", p), format!("{} by {:?} with {:?}", e.name, how, s.bad)),
        // The claim was made for bytes that were all delivered: they alone decide.
        Ok(v) if s.over_filled => match expect(e, data, big).want {
            Want::Ok(m) if m == *v => Ok(()),
            m => viol("a value that was not delivered", format!("{} by {:?} with {:?}: {} instead of {:?}", e.name, how, s.bad, v.short(), m)),
        },
        // Whatever came out is a value of the type: its parts were looked at while converting it.
        _ => Ok(()),
    }
}
/// A stream that claims to have delivered what it never wrote: nothing that happened to be in memory may come out.
fn c10_unwritten(e: &Entry, big: bool, data: &[u8]) -> Res {
    let (k, how) = (below(6) as u64, if chance(1, 2) { How::U } else { How::B });
    let chunk = *w().tape.pick(&[1usize, 2, 7, 100, 5000, 1 << 20]);
    let mut seen = vec![];
    for stale in [0xA5u8, 0x3C] {
        let mut s = SimStream::plain(data);
        s.chunks = Chunks::Fixed(chunk);
        s.bad = Some(Misbehave::Unfilled(k));
        crate::alloc::stale(stale);
        let o = if how == How::U { (e.dec)(big, Way::StreamU(&mut s)) } else { (e.dec)(big, Way::StreamB(&mut s)) };
        if let Err(Fail::Panic(p)) = &o.r {
            crate::alloc::stale(0xA5);
            return viol("panic", format!("{} by {:?} with {:?}: {}", e.name, how, s.bad, p));
        }
        seen.push((s.bad_hit, o));
    }
    crate::alloc::stale(0xA5);
    ev("outcome", outcome_hash(&seen[0].1), seen[0].0 as u64);
    if outcome_hash(&seen[0].1) != outcome_hash(&seen[1].1) {
        return viol("memory that was never written comes out", format!("{} by {:?}, read {} of up to {} bytes not filled: {} or {}", e.name, how, k, chunk, seen[0].1.short(), seen[1].1.short()));
    }
    Ok(())
}
fn d10_depth() -> Res {
    // A deeply nested value of a recursive type.
    let e = by_name("Chain");
    let mut d = vec![];
    for _ in 0..3_000_000 {
        d.extend([1, 0, 0]);
    }
    d.push(0);
    let o = (e.dec)(false, Way::Copy(&d));
    if let Err(Fail::Panic(p)) = o.r {
        return viol("panic", p);
    }
    Ok(())
}
fn d10_times() -> Res {
    for (n, d) in [
        ("Duration", [255u8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]),
        ("SystemTime", [255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]),
        ("DateTime", [255, 255, 255, 255, 255, 255, 255, 127, 0, 0, 0, 0]),
        ("DateTime", [0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255]),
    ] {
        d_all(n, &d)?;
    }
    Ok(())
}
fn d10_lengths() -> Res {
    for n in ["Cow<[u32]>", "Cow<[u8]>", "Vec<u64>", "Vec<u128>", "String", "&[u8]", "Vec<RawC>"] {
        for v in [u32::MAX, 0x8000_0000, 0x4000_0001, 0x2000_0001] {
            d_all(n, &[&v.to_le_bytes()[..], &[1, 2, 3, 4, 5, 6, 7, 8, 9]].concat())?;
        }
    }
    d_all("LenTypes", &[1, 9, 1, 65, 1, 0, 1, 1, 255, 255, 255, 255, 255, 255, 255, 255, 1])?;
    Ok(())
}
pub const D10: &[(&str, fn() -> Res)] = &[("recursive-depth", d10_depth), ("times-out-of-range", d10_times), ("huge-lengths", d10_lengths)];

// --------------------------------------------------------------------------------------------------------------- C11
fn c11_input(e: &Entry, big: bool) -> Vec<u8> {
    if chance(1, 3) {
        let (_, mut d) = sample(e, big, chance(1, 4));
        if chance(1, 2) {
            d.extend(junk(30));
        }
        d
    } else {
        hostile(e, big, chance(1, 8))
    }
}
pub fn c11() -> Res {
    let (e, big, data) = if chance(1, 30) {
        let (e, d) = overlapping();
        (e, chance(1, 2), d)
    } else {
        let e = pick(|e| !e.t.zero_elem);
        let big = draw_big(e);
        (e, big, c11_input(e, big))
    };
    let x = expect(e, &data, big);
    ev("expect", matches!(x.want, Want::Ok(_)) as u64, x.pos as u64);
    let g = Guarded::new(&data, below(9) as usize);
    let mut first: Option<(How, DecOut)> = None;
    for &how in hows(e) {
        let (o, _) = run_how(e, big, g.bytes(), how);
        if let Err(Fail::Planned(p)) = &o.r {
            return viol(format!("stuck: {}", p), format!("{} by {:?}", e.name, how));
        }
        if let (Some(u), Ok(v), Want::Ok(m)) = (o.used, &o.r, &x.want) {
            if v == m && u != x.pos {
                return bad_out("wrong length", e.name, &format!("{:?}", how), &format!("{} bytes consumed", x.pos), &o);
            }
        }
        if let Some((h, p)) = &first {
            let same = match (&p.r, &o.r) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.is_panic() == b.is_panic(),
                _ => false,
            };
            if !same {
                return viol("entry points disagree", format!("{}: {:?} {} and {:?} {}", e.name, h, p.short(), how, o.short()));
            }
        } else {
            first = Some((how, o));
        }
    }
    Ok(())
}
/// A defaulted field whose elements can be invalid: where the input ends decides between default and error.
fn d11_doe_chars() -> Res {
    use speedy::Readable;
    let d = [9, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF];
    let a = guard(|| DoeChars::read_from_buffer_with_ctx(SimCtx::new(false), &d)).map(|x| x.to_val());
    let mut s = SimStream::plain(&d);
    let b = guard(|| DoeChars::read_from_stream_unbuffered_with_ctx(SimCtx::new(false), &mut s)).map(|x| x.to_val());
    if a.is_ok() != b.is_ok() {
        return viol("entry points disagree", format!("buffer {:?}, stream {:?}", a, b));
    }
    Ok(())
}
fn d11_raw_eof() -> Res {
    // Too long collections of raw elements are an end of input, also where that means a default.
    d_all("DoeVec", &[255, 255, 255, 255, 1, 2])?;
    d_all("DoeVec", &[255, 255, 255, 127])?;
    d_all("DoeLen", &[8, 1, 0])?;
    d_all("EofVecs", &[1, 0, 0, 0, 5, 255, 255, 255, 255, 1])?;
    d_all("DoeSets", &[255, 255, 255, 255, 255, 255, 255, 255, 1, 2])?;
    d_all("DoeSets", &[0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 255])?;
    d_all("EofSets", &[1, 255, 255, 255, 255, 255, 255, 255, 255, 5])?;
    d_all("Windows", &[3, 1, 1, 1, 1, 1, 1])?;
    d_all("Windows2", &[3, 1])?;
    d_all("Peek64", &[9, 0, 0, 0, 0, 0, 0, 0])
}
pub const D11: &[(&str, fn() -> Res)] = &[("default-on-eof-invalid-elements", d11_doe_chars), ("raw-too-long", d11_raw_eof)];

// --------------------------------------------------------------------------------------------------------------- C12
pub const MEM_FLOOR: u64 = 160_000;
pub fn c12() -> Res {
    if chance(1, 6) {
        return crate::props_scripts::c12_script();
    }
    let e = pick(|e| !e.t.zero_elem && !e.t.regex);
    let big = draw_big(e);
    let data = match below(4) {
        0 => sample(e, big, true).1,
        1 => hostile(e, big, false),
        _ => {
            let v = e.gen(chance(1, 4));
            let mut d = lying(e, &v, big);
            if chance(1, 3) {
                d.extend(junk(200));
            }
            if chance(1, 4) {
                let k = below(d.len() as u32 + 1) as usize;
                d.truncate(k);
            }
            if e.t.recursive {
                d.truncate(3000);
            }
            d
        }
    };
    ev("input", data.len() as u64, hash_bytes(&data));
    note(|| format!("big-endian={} input {}", big, hex(&data)));
    let g = Guarded::new(&data, 0);
    let hs = hows(e);
    for _ in 0..3 {
        let how = *w().tape.pick(hs);
        let (o, got) = run_how(e, big, g.bytes(), how);
        if let Err(Fail::Panic(p)) = &o.r {
            if p.contains("capacity overflow") {
                return viol("memory", format!("{} by {:?}: {}", e.name, how, p));
            }
        }
        let lim = MEM_FLOOR + e.mem * got as u64;
        ev("peak", (o.peak as u64) / 4096, 0);
        if o.peak as u64 > lim {
            return viol("memory", format!("{} by {:?}: {} bytes allocated for {} delivered bytes (limit {})", e.name, how, o.peak, got, lim));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C13
pub struct Watch {
    pub name: &'static str,
    pub s: S,
    pub dec: DecFn,
    pub hashed: bool,
}
pub fn watched() -> &'static [Watch] {
    static C: OnceLock<Vec<Watch>> = OnceLock::new();
    C.get_or_init(|| {
        use std::collections::*;
        let mut v = vec![];
        macro_rules! t { ($($n:literal : $t:ty;)*) => { $( {
            fn d<'a, 's>(big: bool, way: Way<'a, 's>) -> DecOut { decode::<$t>(big, way) }
            fn sc<'a>(_: &'a ()) -> S { <$t as Model>::schema() }
            let s = sc(&());
            v.push(Watch { name: $n, s, dec: d, hashed: false });
        } )* } }
        t! {
            "Vec<Tracked>": Vec<Tracked>;
            "Vec<Heavy>": Vec<Heavy>;
            "Vec<Ghost>": Vec<Ghost>;
            "Box<[Tracked]>": Box<[Tracked]>;
            "Box<[Heavy]>": Box<[Heavy]>;
            "Box<Heavy>": Box<Heavy>;
            "[Tracked; 5]": [Tracked; 5];
            "[Heavy; 3]": [Heavy; 3];
            "[Ghost; 4]": [Ghost; 4];
            "[[Tracked; 2]; 3]": [[Tracked; 2]; 3];
            "[Box<Heavy>; 2]": [Box<Heavy>; 2];
            "[Vec<Heavy>; 2]": [Vec<Heavy>; 2];
            "[(Tracked, u16); 3]": [(Tracked, u16); 3];
            "Option<Tracked>": Option<Tracked>;
            "Option<[Heavy; 2]>": Option<[Heavy; 2]>;
            "Result<Tracked, Heavy>": Result<Tracked, Heavy>;
            "(Tracked, Heavy, Ghost)": (Tracked, Heavy, Ghost);
            "(Tracked, [Heavy; 2], Vec<Tracked>, Tracked)": (Tracked, [Heavy; 2], Vec<Tracked>, Tracked);
            "Vec<Option<Heavy>>": Vec<Option<Heavy>>;
            "Vec<(Tracked, Heavy)>": Vec<(Tracked, Heavy)>;
            "Vec<[Tracked; 2]>": Vec<[Tracked; 2]>;
            "Vec<Vec<Tracked>>": Vec<Vec<Tracked>>;
            "Vec<Result<Tracked, String>>": Vec<Result<Tracked, String>>;
            "BTreeSet<Tracked>": BTreeSet<Tracked>;
            "HashSet<Tracked>": HashSet<Tracked>;
            "BTreeMap<Tracked, Heavy>": BTreeMap<Tracked, Heavy>;
            "HashMap<Tracked, Tracked>": HashMap<Tracked, Tracked>;
            "HashMap<u8, Heavy>": HashMap<u8, Heavy>;
            "BTreeMap<u8, Tracked>": BTreeMap<u8, Tracked>;
            "Cow<[Tracked]>": std::borrow::Cow<'a, [Tracked]>;
            "Cow<BTreeSet<Tracked>>": std::borrow::Cow<'a, BTreeSet<Tracked>>;
            "SmallVec<[Tracked; 3]>": smallvec::SmallVec<[Tracked; 3]>;
            "SmallVec<[Heavy; 2]>": smallvec::SmallVec<[Heavy; 2]>;
            "IndexMap1": Im1<Tracked, Tracked>;
            "IndexMap2": Im2<u8, Heavy>;
            "IndexSet2": Is2<Tracked>;
            "Range<Tracked>": std::ops::Range<Tracked>;
            "RangeInclusive<Heavy>": std::ops::RangeInclusive<Heavy>;
            "Crew<Tracked>": Crew<Tracked>;
            "Crew<Heavy>": Crew<Heavy>;
            "Squad<Tracked>": Squad<Tracked>;
            "Squad<Heavy>": Squad<Heavy>;
            "Tail<Tracked>": Tail<Tracked>;
            "Tail<Heavy>": Tail<Heavy>;
            "TailSet": TailSet<Tracked>;
            "Vec<Crew<Tracked>>": Vec<Crew<Tracked>>;
            "Mix<Vec<Tracked>>": Mix<Vec<Tracked>>;
        }
        v
    })
}
/// The reference for watched types: planted bytes inside elements decide.
pub fn c13() -> Res {
    let t = w().tape.pick(watched());
    ev(t.name, 0, 0);
    note(|| format!("type {}", t.name));
    ledger_reset();
    let v = Gen { budget: 40, depth: 0, big: false }.val(&mut w().tape, &t.s);
    let mut data = encode(&t.s, &v, false);
    // Elements mean something else by these bytes.
    let mut clean = true;
    for b in data.iter_mut() {
        if *b == FAIL_BYTE || *b == PANIC_BYTE {
            *b = 0x7F;
        }
    }
    let kind = below(6);
    let pos = |d: &Vec<u8>| below(d.len().max(1) as u32) as usize;
    let mut panics = false;
    match kind {
        0 => {}
        1 => {
            let p = pos(&data);
            if p < data.len() {
                data[p] = FAIL_BYTE;
                clean = false;
                fired("planted element failure");
            }
        }
        2 => {
            let p = pos(&data);
            if p < data.len() {
                data[p] = PANIC_BYTE;
                clean = false;
                panics = true;
            }
        }
        3 => {
            let p = pos(&data);
            data.truncate(p);
            fired("truncation");
        }
        4 => {
            mutate(&mut data);
            clean = !data.iter().any(|&b| b == FAIL_BYTE || b == PANIC_BYTE);
            panics = data.contains(&PANIC_BYTE);
        }
        _ => {}
    }
    ev("input", data.len() as u64, hash_bytes(&data));
    note(|| format!("input {}", hex(&data)));
    let x = expect_s(&t.s, &data, false);
    for _ in 0..2 {
        let how = *w().tape.pick(ALL_HOW);
        let mut planted = false;
        let o = if kind == 5 && matches!(how, How::U | How::B) {
            let mut s = SimStream::draw(&data);
            let at = below(data.len() as u32 + 1) as usize;
            s.err = Some((at, Planted::draw()));
            if chance(1, 4) {
                s.bad = Some(Misbehave::Panic(below(6) as u64));
            }
            planted = true;
            if how == How::U {
                (t.dec)(false, Way::StreamU(&mut s))
            } else {
                (t.dec)(false, Way::StreamB(&mut s))
            }
        } else {
            run_dec(t.dec, false, &data, how).0
        };
        let l = ledger();
        ev("made", l.state.len() as u64, l.alive() as u64);
        if let Some(b) = l.bad.take() {
            return viol("drop", format!("{} by {:?}: {} ({})", t.name, how, b, o.short()));
        }
        let alive = l.alive();
        match &o.r {
            Err(Fail::Panic(p)) => return viol("panic", format!("{} by {:?}: {}", t.name, how, p)),
            Err(Fail::Planned("stream panic")) if planted => {}
            Err(Fail::Planned("element panic")) if panics => {}
            Err(Fail::Planned(p)) => return viol(format!("stuck: {}", p), t.name),
            _ => {
                if alive != 0 {
                    return viol(if alive > 0 { "an element is never dropped" } else { "an element is dropped twice" }, format!("{} by {:?}: {} elements left over after {}", t.name, how, alive, o.short()));
                }
                if o.left_checked && o.left != 0 {
                    return viol("memory is not returned", format!("{} by {:?}: {} bytes left after {}", t.name, how, o.left, o.short()));
                }
            }
        }
        if alive < 0 {
            return viol("an element is dropped twice", format!("{} by {:?}: balance {}", t.name, how, alive));
        }
        if clean && !planted && o.r.is_ok() && matches!(x.want, Want::Ok(_)) {
            compare(t.name, how, &x, &DecOut { used: None, ..o }, false)?;
        }
        ledger_reset();
    }
    Ok(())
}
fn d13_ghosts() -> Res {
    let t = watched().iter().find(|t| t.name == "Vec<Ghost>").unwrap();
    ledger_reset();
    let d = [3, 0, 0, 0, 1, 2, 3];
    for &how in ALL_HOW {
        let (o, _) = run_dec(t.dec, false, &d, how);
        compare(t.name, how, &expect_s(&t.s, &d, false), &o, false)?;
        if ledger().alive() != 0 || ledger().zst_made != 3 {
            return viol("drop", format!("{} created, {} left", ledger().zst_made, ledger().alive()));
        }
        ledger_reset();
    }
    Ok(())
}
pub const D13: &[(&str, fn() -> Res)] = &[("zero-sized-elements", d13_ghosts)];

// --------------------------------------------------------------------------------------------------------------- C19
fn d19_raw_attrs() -> Res {
    // Field attributes of structs that could be copied as raw bytes.
    for (n, big) in [("Vec<RawVar>", false), ("Vec<RawVar>", true), ("[TransRaw;3]", true), ("RawHolder", true), ("RawMaps", true)] {
        let e = by_name(n);
        for i in 0..40u32 {
            let mut t = Tape::generate(i as u64);
            let v = Gen { budget: 30, depth: 0, big: false }.val(&mut t, &e.s);
            let mut r = Ok(());
            (e.obj.unwrap())(&v, &mut |x| r = lib_bytes(e, &v, big, x).map(|_| ()));
            r?;
            let d = encode(&e.s, &v, big);
            let o = (e.dec)(big, Way::Buf(&d));
            compare(e.name, How::Buf, &expect(e, &d, big), &o, false)?;
        }
    }
    Ok(())
}
pub const D19: &[(&str, fn() -> Res)] = &[("raw-struct-attributes", d19_raw_attrs)];
