//! The reference: the documented wire format written down as schemas, with an encoder, a decoder and a generator
//! that share no code with speedy. Values of every corpus type are compared through `Val`.
use crate::base::{Rng, Tape};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Val {
    Unit,
    U(u128),
    I(i128),
    B(Vec<u8>),
    N,
    S(Box<Val>),
    E(u32, Vec<Val>),
    L(Vec<Val>),
}
impl Val {
    pub fn u(&self) -> u128 {
        match self {
            Val::U(v) => *v,
            _ => panic!("sim: not U: {:?}", self),
        }
    }
    pub fn i(&self) -> i128 {
        match self {
            Val::I(v) => *v,
            _ => panic!("sim: not I: {:?}", self),
        }
    }
    pub fn b(&self) -> &[u8] {
        match self {
            Val::B(v) => v,
            _ => panic!("sim: not B: {:?}", self),
        }
    }
    pub fn l(&self) -> &[Val] {
        match self {
            Val::L(v) => v,
            _ => panic!("sim: not L: {:?}", self),
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 300 {
            let mut e = 300;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            format!("{}...", &s[..e])
        } else {
            s
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W {
    U7,
    U8,
    U16,
    U32,
    U64,
    Var,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Len {
    W(W),
    /// value-of-an-earlier-field * mul / div + plus.
    Field { i: usize, mul: usize, div: usize, plus: usize },
    Eof,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Vec,
    /// Sorted and deduplicated on decode; the encoder emits in `Val` order.
    Sorted,
    /// As `Sorted`, but speedy's encoder is free to emit any order.
    Hashed,
    /// Insertion order, later duplicates replace in place.
    Indexed,
}
#[derive(Clone)]
pub enum S {
    U(u8),
    /// A machine size: always 8 bytes.
    Size,
    /// Floats: carried as their bits.
    F(u8),
    I(u8),
    Bool,
    Char,
    Varint,
    NonZeroU(u8),
    NonZeroI(u8),
    /// Exactly n raw bytes, no byte order.
    Raw(usize),
    Duration,
    SystemTime,
    Chrono,
    Regex,
    Str(Len),
    Seq { len: Len, elem: Box<S>, kind: Kind, esz: usize },
    Map { len: Len, k: Box<S>, v: Box<S>, kind: Kind, esz: usize },
    Opt(Box<S>),
    Res(Box<S>, Box<S>),
    Tup(Vec<S>),
    Arr(usize, Box<S>),
    Struct(Vec<Field>),
    Enum { tag: W, peek: bool, variants: Vec<(u64, Vec<Field>)> },
    /// One byte that switches the byte order of the context for everything after it: 0 little, 1 big.
    SetEndian,
    /// n flags in the low bits of one byte.
    Flags(u8),
    /// Skips n bytes (custom type): encodes as zero bytes, decodes to Unit.
    Skip(usize),
    /// Looks at the next n-byte unsigned integer without consuming it.
    PeekU(u8),
    Rec(fn() -> S),
}
#[derive(Clone)]
pub struct Field {
    pub s: S,
    pub skip: bool,
    pub doe: bool,
    pub prefix: Vec<u8>,
    /// The generator always uses this value (tags that must be found again by a peek).
    pub fixed: Option<Val>,
    /// Generated small because a later field's length depends on it.
    pub small: bool,
}
impl Field {
    pub fn new(s: S) -> Self {
        Field { s, skip: false, doe: false, prefix: vec![], fixed: None, small: false }
    }
}
/// Makes the `at`-th place of a value which can stop fitting its declared length stop fitting; counts such places.
pub fn misfit(s: &S, v: &mut Val, n: &mut u32, at: u32) -> bool {
    let mut here = |v: &mut Val, len: Len, elem: Option<&S>, vec: bool| -> bool {
        let want = match len {
            Len::Eof | Len::W(W::U32) | Len::W(W::U64) | Len::W(W::Var) => return false,
            Len::W(W::U16) => match v {
                Val::B(_) => 65536,
                _ => return false,
            },
            Len::W(w) if vec => wmax(w) as usize + 1,
            Len::W(_) => return false,
            Len::Field { .. } => match v {
                Val::B(b) => b.len() + 1,
                Val::L(l) if !l.is_empty() => l.len() - 1,
                Val::L(_) if vec => 1,
                _ => return false,
            },
        };
        *n += 1;
        if *n - 1 != at {
            return false;
        }
        match v {
            Val::B(b) => b.resize(want, b'x'),
            Val::L(l) => {
                if want < l.len() {
                    l.truncate(want);
                } else {
                    let x = l.last().cloned().unwrap_or_else(|| default(elem.unwrap()));
                    l.resize(want, x);
                }
            }
            _ => panic!("sim: not a sequence"),
        }
        true
    };
    let fields = |fs: &[Field], v: &mut [Val], n: &mut u32| fs.iter().zip(v).any(|(f, v)| !f.skip && misfit(&f.s, v, n, at));
    match (s, v) {
        (S::Str(l), v) => here(v, *l, None, true),
        (S::Seq { len, elem, kind, .. }, v) => {
            if here(v, *len, Some(elem), *kind == Kind::Vec) {
                return true;
            }
            match v {
                Val::L(l) if *kind == Kind::Vec => l.iter_mut().any(|x| misfit(elem, x, n, at)),
                _ => false,
            }
        }
        (S::Map { len, .. }, v) => here(v, *len, None, false),
        (S::Opt(x), Val::S(v)) => misfit(x, v, n, at),
        (S::Res(a, _), Val::E(0, v)) => misfit(a, &mut v[0], n, at),
        (S::Res(_, b), Val::E(_, v)) => misfit(b, &mut v[0], n, at),
        (S::Tup(ss), Val::L(v)) => ss.iter().zip(v).any(|(s, v)| misfit(s, v, n, at)),
        (S::Arr(_, e), Val::L(v)) => v.iter_mut().any(|v| misfit(e, v, n, at)),
        (S::Struct(fs), Val::L(v)) => fields(fs, v, n),
        (S::Enum { variants, .. }, Val::E(i, v)) => fields(&variants[*i as usize].1, v, n),
        (S::Rec(f), v) => misfit(&f(), v, n, at),
        _ => false,
    }
}
// Field attribute modifiers used by the corpus macros.
pub fn plain(f: Field) -> Field {
    f
}
pub fn lt(w: W) -> impl Fn(Field) -> Field {
    move |mut f| {
        set_len(&mut f.s, Len::W(w));
        f
    }
}
pub fn len_of(i: usize) -> impl Fn(Field) -> Field {
    len_expr(i, 1, 1, 0)
}
pub fn len_expr(i: usize, mul: usize, div: usize, plus: usize) -> impl Fn(Field) -> Field {
    move |mut f| {
        set_len(&mut f.s, Len::Field { i, mul, div, plus });
        f
    }
}
pub fn until_eof(mut f: Field) -> Field {
    set_len(&mut f.s, Len::Eof);
    f
}
pub fn skipped(mut f: Field) -> Field {
    f.skip = true;
    f
}
pub fn doe(mut f: Field) -> Field {
    f.doe = true;
    f
}
pub fn small(mut f: Field) -> Field {
    f.small = true;
    f
}
pub fn varint(mut f: Field) -> Field {
    f.s = match f.s {
        S::Opt(_) => S::Opt(Box::new(S::Varint)),
        _ => S::Varint,
    };
    f
}
pub fn prefix(p: &'static [u8]) -> impl Fn(Field) -> Field {
    move |mut f| {
        f.prefix = p.to_vec();
        f
    }
}
pub fn fixed(v: Val) -> impl Fn(Field) -> Field {
    move |mut f| {
        f.fixed = Some(v.clone());
        f
    }
}
fn set_len(s: &mut S, l: Len) {
    match s {
        S::Str(x) => *x = l,
        S::Seq { len, .. } => *len = l,
        S::Map { len, .. } => *len = l,
        S::Opt(x) => set_len(x, l),
        _ => panic!("sim: length attribute on a type without a length"),
    }
}

pub fn wmax(w: W) -> u64 {
    match w {
        W::U7 => 127,
        W::U8 => 255,
        W::U16 => 65535,
        W::U32 => u32::MAX as u64,
        W::U64 | W::Var => u64::MAX,
    }
}

pub fn varint_len(v: u64) -> usize {
    // 7 bits per byte for the first eight bytes, the ninth carries a whole byte more.
    for n in 0..8 {
        if v < 1u64 << (7 * (n + 1)) {
            return n + 1;
        }
    }
    9
}
pub fn enc_varint(v: u64, out: &mut Vec<u8>) {
    let n = varint_len(v);
    // n-1 leading one bits, then (while it fits) a zero bit, then the top bits; the rest follows least significant first.
    let rest = n - 1;
    let lead: u8 = if rest == 8 { 0xFF } else { !(0xFFu16 >> rest) as u8 };
    let top = if rest >= 8 { 0 } else { (v >> (8 * rest)) as u8 };
    out.push(lead | top);
    for i in 0..rest {
        out.push((v >> (8 * i)) as u8);
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Lie {
    Is(u64),
    /// Off by so much: may be taken for the truth by whoever narrows it.
    Off(u64),
}
pub struct Enc {
    pub big: bool,
    pub out: Vec<u8>,
    /// When set, the n-th length, tag or machine size written is replaced (used to make lying inputs).
    pub lie: Option<(usize, Lie)>,
    pub lens: usize,
    pub flips: Vec<bool>,
}
impl Enc {
    pub fn new(big: bool) -> Self {
        Enc { big, out: vec![], lie: None, lens: 0, flips: vec![] }
    }
    fn int(&mut self, n: u8, v: u128) {
        let b = v.to_le_bytes();
        let n = n as usize;
        if self.big {
            for i in (0..n).rev() {
                self.out.push(b[i]);
            }
        } else {
            self.out.extend_from_slice(&b[..n]);
        }
    }
    fn len(&mut self, l: Len, n: usize) {
        if let Len::W(w) = l {
            self.claim(w, n as u64)
        }
    }
    fn claim(&mut self, w: W, mut n: u64) {
        match self.lie {
            Some((at, Lie::Is(x))) if at == self.lens => n = x,
            Some((at, Lie::Off(x))) if at == self.lens => n = n.wrapping_add(x),
            _ => {}
        }
        self.lens += 1;
        self.wint(w, n);
    }
    fn wint(&mut self, w: W, n: u64) {
        match w {
            W::U7 | W::U8 => self.int(1, n as u8 as u128),
            W::U16 => self.int(2, n as u16 as u128),
            W::U32 => self.int(4, n as u32 as u128),
            W::U64 => self.int(8, n as u128),
            W::Var => enc_varint(n, &mut self.out),
        }
    }
    fn fields(&mut self, fs: &[Field], vs: &[Val]) {
        for (f, v) in fs.iter().zip(vs) {
            if f.skip {
                continue;
            }
            self.out.extend_from_slice(&f.prefix);
            self.val(&f.s, v);
        }
    }
    pub fn val(&mut self, s: &S, v: &Val) {
        match s {
            S::U(n) | S::F(n) | S::NonZeroU(n) => self.int(*n, v.u()),
            S::Size => self.claim(W::U64, v.u() as u64),
            S::I(n) | S::NonZeroI(n) => self.int(*n, v.i() as u128),
            S::Bool => self.int(1, v.u()),
            S::Char => self.int(4, v.u()),
            S::Varint => enc_varint(v.u() as u64, &mut self.out),
            S::Raw(_) => self.out.extend_from_slice(v.b()),
            S::Duration | S::SystemTime => {
                self.int(8, v.l()[0].u());
                self.int(4, v.l()[1].u());
            }
            S::Chrono => {
                self.int(8, v.l()[0].i() as u128);
                self.int(4, v.l()[1].u());
            }
            S::Str(l) => {
                self.len(*l, v.b().len());
                self.out.extend_from_slice(v.b());
            }
            S::Regex => {
                self.len(Len::W(W::U32), v.b().len());
                self.out.extend_from_slice(v.b());
            }
            S::Seq { len, elem, .. } => match v {
                Val::B(b) => {
                    self.len(*len, b.len());
                    self.out.extend_from_slice(b);
                }
                _ => {
                    self.len(*len, v.l().len());
                    for x in v.l() {
                        self.val(elem, x);
                    }
                }
            },
            S::Map { len, k, v: vs, .. } => {
                self.len(*len, v.l().len());
                for p in v.l() {
                    self.val(k, &p.l()[0]);
                    self.val(vs, &p.l()[1]);
                }
            }
            S::Opt(x) => match v {
                Val::N => self.int(1, 0),
                Val::S(i) => {
                    self.int(1, 1);
                    self.val(x, i);
                }
                _ => panic!("sim: not an option"),
            },
            S::Res(a, b) => match v {
                Val::E(0, x) => {
                    self.int(1, 1);
                    self.val(a, &x[0]);
                }
                Val::E(_, x) => {
                    self.int(1, 0);
                    self.val(b, &x[0]);
                }
                _ => panic!("sim: not a result"),
            },
            S::Tup(ss) => {
                for (s, v) in ss.iter().zip(v.l()) {
                    self.val(s, v);
                }
            }
            S::Arr(_, e) => match v {
                Val::B(b) => self.out.extend_from_slice(b),
                _ => {
                    for x in v.l() {
                        self.val(e, x);
                    }
                }
            },
            S::Struct(fs) => self.fields(fs, v.l()),
            S::Enum { tag, peek, variants } => match v {
                Val::E(i, vs) => {
                    let (t, fs) = &variants[*i as usize];
                    if !*peek {
                        self.claim(*tag, *t);
                    }
                    self.fields(fs, vs);
                }
                _ => panic!("sim: not an enum"),
            },
            S::Flags(_) => {
                let b = v.l().iter().enumerate().fold(0u8, |b, (i, x)| b | (x.u() as u8) << i);
                self.out.push(b);
            }
            S::SetEndian => {
                self.out.push(v.u() as u8);
                self.big = v.u() == 1;
                self.flips.push(self.big);
            }
            S::Skip(n) => self.out.extend(std::iter::repeat(0).take(*n)),
            S::PeekU(_) => {}
            S::Rec(f) => self.val(&f(), v),
        }
    }
}
pub fn encode(s: &S, v: &Val, big: bool) -> Vec<u8> {
    let mut e = Enc::new(big);
    e.val(s, v);
    e.out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DErr {
    Eof,
    Bad(&'static str),
}
pub struct Dec<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// One past the last byte looked at without consuming.
    pub peeked: usize,
    pub big: bool,
    pub steps: u64,
    /// Whether hitting the end was part of the outcome.
    pub saw_eof: bool,
    pub flips: Vec<bool>,
}
type R<T> = Result<T, DErr>;
impl<'a> Dec<'a> {
    pub fn new(data: &'a [u8], big: bool) -> Self {
        Dec { data, pos: 0, peeked: 0, big, steps: 0, saw_eof: false, flips: vec![] }
    }
    pub fn extent(&self) -> usize {
        self.pos.max(self.peeked)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.data.len() - self.pos < n {
            self.saw_eof = true;
            return Err(DErr::Eof);
        }
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn int(&mut self, n: u8) -> R<u128> {
        let big = self.big;
        let b = self.take(n as usize)?;
        Ok(to_int(b, big))
    }
    fn sint(&mut self, n: u8) -> R<i128> {
        let v = self.int(n)?;
        let sh = 128 - 8 * n as u32;
        Ok(((v << sh) as i128) >> sh)
    }
    fn varint(&mut self) -> R<u64> {
        let save = self.pos;
        let first = self.take(1)?[0];
        let rest = first.leading_ones() as usize;
        let b = match self.take(rest) {
            Ok(b) => b,
            Err(e) => {
                self.pos = save;
                return Err(e);
            }
        };
        let mut v: u64 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        if rest < 8 {
            let top = first as u64 & (0xFFu64 >> rest);
            v |= top << (8 * rest);
        }
        Ok(v)
    }
    fn wint(&mut self, w: W) -> R<u64> {
        Ok(match w {
            W::U7 | W::U8 => self.int(1)? as u64,
            W::U16 => self.int(2)? as u64,
            W::U32 => self.int(4)? as u64,
            W::U64 => self.int(8)? as u64,
            W::Var => self.varint()?,
        })
    }
    fn len(&mut self, l: Len, fields: &[Val]) -> R<Option<u64>> {
        Ok(match l {
            Len::W(W::U7) => {
                let v = self.wint(W::U7)?;
                if v > 127 {
                    return Err(DErr::Bad("length"));
                }
                Some(v)
            }
            Len::W(w) => {
                let v = self.wint(w)?;
                if v > usize::MAX as u64 {
                    return Err(DErr::Bad("no such length on this machine"));
                }
                Some(v)
            }
            Len::Field { i, mul, div, plus } => Some(fields[i].u() as u64 * mul as u64 / div as u64 + plus as u64),
            Len::Eof => None,
        })
    }
    fn eof_is_end(&mut self) {
        self.pos = self.data.len();
    }
    fn bytes(&mut self, n: Option<u64>) -> R<Vec<u8>> {
        match n {
            None => {
                let r = self.data[self.pos..].to_vec();
                self.pos = self.data.len();
                self.saw_eof = true;
                Ok(r)
            }
            Some(n) => {
                if n > usize::MAX as u64 / 2 {
                    self.saw_eof = true;
                    return Err(DErr::Eof);
                }
                Ok(self.take(n as usize)?.to_vec())
            }
        }
    }
    fn many(&mut self, n: Option<u64>, f: &mut dyn FnMut(&mut Self) -> R<Val>) -> R<Vec<Val>> {
        let mut out = vec![];
        match n {
            Some(n) => {
                let mut i = 0;
                while i < n {
                    out.push(f(self)?);
                    i += 1;
                    if i > 2_000_000 {
                        return Err(DErr::Bad("sim: too many zero sized elements"));
                    }
                }
            }
            None => loop {
                let before = self.pos;
                match f(self) {
                    Ok(v) => out.push(v),
                    Err(DErr::Eof) => {
                        let _ = before;
                        self.eof_is_end();
                        break;
                    }
                    Err(e) => return Err(e),
                }
            },
        }
        Ok(out)
    }
    fn field(&mut self, f: &Field, done: &[Val]) -> R<Val> {
        if f.skip {
            return Ok(default(&f.s));
        }
        let r = self.field_inner(f, done);
        if f.doe && r == Err(DErr::Eof) {
            self.eof_is_end();
            return Ok(default(&f.s));
        }
        r
    }
    fn field_inner(&mut self, f: &Field, done: &[Val]) -> R<Val> {
        if !f.prefix.is_empty() {
            let p = self.take(f.prefix.len())?;
            if p != &f.prefix[..] {
                return Err(DErr::Bad("constant"));
            }
        }
        self.val_in(&f.s, done)
    }
    pub fn fields(&mut self, fs: &[Field]) -> R<Vec<Val>> {
        let mut out = vec![];
        for f in fs {
            let v = self.field(f, &out)?;
            out.push(v);
        }
        Ok(out)
    }
    pub fn val(&mut self, s: &S) -> R<Val> {
        self.val_in(s, &[])
    }
    /// A sequence whose element count is given from outside.
    pub fn counted(&mut self, s: &S, n: u64) -> R<Val> {
        let done = [Val::U(n as u128)];
        let l = Len::Field { i: 0, mul: 1, div: 1, plus: 0 };
        let mut s = s.clone();
        match &mut s {
            S::Str(len) | S::Seq { len, .. } | S::Map { len, .. } => *len = l,
            _ => panic!("sim: not a sequence"),
        }
        self.val_in(&s, &done)
    }
    fn val_in(&mut self, s: &S, done: &[Val]) -> R<Val> {
        self.steps += 1;
        Ok(match s {
            S::U(n) | S::F(n) => Val::U(self.int(*n)?),
            S::Size => {
                let v = self.int(8)?;
                if v > usize::MAX as u128 {
                    return Err(DErr::Bad("no such size on this machine"));
                }
                Val::U(v)
            }
            S::I(n) => Val::I(self.sint(*n)?),
            S::NonZeroU(n) => match self.int(*n)? {
                0 => return Err(DErr::Bad("zero")),
                v => Val::U(v),
            },
            S::NonZeroI(n) => match self.sint(*n)? {
                0 => return Err(DErr::Bad("zero")),
                v => Val::I(v),
            },
            S::Bool => Val::U((self.int(1)? != 0) as u128),
            S::Char => {
                let v = self.int(4)?;
                if v > 0x10FFFF || (0xD800..0xE000).contains(&v) {
                    return Err(DErr::Bad("char"));
                }
                Val::U(v)
            }
            S::Varint => Val::U(self.varint()? as u128),
            S::Raw(n) => Val::B(self.take(*n)?.to_vec()),
            S::Duration | S::SystemTime => {
                let secs = self.int(8)? as u64;
                let nanos = self.int(4)? as u64;
                let secs = match secs.checked_add(nanos / 1_000_000_000) {
                    Some(v) => v,
                    None => return Err(DErr::Bad("duration")),
                };
                if matches!(s, S::SystemTime) && secs > i64::MAX as u64 {
                    return Err(DErr::Bad("system time"));
                }
                Val::L(vec![Val::U(secs as u128), Val::U((nanos % 1_000_000_000) as u128)])
            }
            S::Chrono => {
                let secs = self.sint(8)? as i64;
                let nanos = self.int(4)? as u32;
                // chrono itself defines which timestamps exist (leap seconds included).
                if chrono::DateTime::<chrono::Utc>::from_timestamp(secs, nanos).is_none() {
                    return Err(DErr::Bad("timestamp"));
                }
                Val::L(vec![Val::I(secs as i128), Val::U(nanos as u128)])
            }
            S::Str(l) => {
                let n = self.len(*l, done)?;
                let b = self.bytes(n)?;
                if std::str::from_utf8(&b).is_err() {
                    return Err(DErr::Bad("utf8"));
                }
                Val::B(b)
            }
            S::Regex => {
                let n = self.len(Len::W(W::U32), done)?;
                let b = self.bytes(n)?;
                match std::str::from_utf8(&b) {
                    Ok(s) if regex::Regex::new(s).is_ok() => Val::B(b),
                    _ => return Err(DErr::Bad("regex")),
                }
            }
            S::Seq { len, elem, kind, .. } => {
                let n = self.len(*len, done)?;
                if *kind == Kind::Vec && matches!(**elem, S::U(1)) {
                    return Ok(Val::B(self.bytes(n)?));
                }
                let v = self.many(n, &mut |d| d.val(elem))?;
                Val::L(canon_set(v, *kind))
            }
            S::Map { len, k, v, kind, .. } => {
                let n = self.len(*len, done)?;
                let items = self.many(n, &mut |d| {
                    let a = d.val(k)?;
                    let b = d.val(v)?;
                    Ok(Val::L(vec![a, b]))
                })?;
                Val::L(canon_map(items, *kind))
            }
            S::Opt(x) => {
                if self.int(1)? != 0 {
                    Val::S(Box::new(self.val_in(x, done)?))
                } else {
                    Val::N
                }
            }
            S::Res(a, b) => {
                if self.int(1)? != 0 {
                    Val::E(0, vec![self.val(a)?])
                } else {
                    Val::E(1, vec![self.val(b)?])
                }
            }
            S::Tup(ss) => {
                let mut out = vec![];
                for s in ss {
                    out.push(self.val(s)?);
                }
                Val::L(out)
            }
            S::Arr(n, e) => {
                if matches!(**e, S::U(1)) {
                    return Ok(Val::B(self.take(*n)?.to_vec()));
                }
                Val::L(self.many(Some(*n as u64), &mut |d| d.val(e))?)
            }
            S::Struct(fs) => Val::L(self.fields(fs)?),
            S::Enum { tag, peek, variants } => {
                let save = self.pos;
                let t = self.wint(*tag)?;
                if *peek {
                    self.peeked = self.peeked.max(self.pos);
                    self.pos = save;
                }
                for (i, (x, fs)) in variants.iter().enumerate() {
                    if *x == t {
                        return Ok(Val::E(i as u32, self.fields(fs)?));
                    }
                }
                return Err(DErr::Bad("variant"));
            }
            S::Flags(n) => {
                let b = self.take(1)?[0];
                Val::L((0..*n).map(|i| Val::U((b >> i & 1) as u128)).collect())
            }
            S::SetEndian => {
                let b = self.take(1)?[0];
                if b > 1 {
                    return Err(DErr::Bad("endian"));
                }
                self.big = b == 1;
                self.flips.push(b == 1);
                Val::U(b as u128)
            }
            S::Skip(n) => {
                self.take(*n)?;
                Val::Unit
            }
            S::PeekU(n) => {
                let save = self.pos;
                let v = self.int(*n)?;
                self.peeked = self.peeked.max(self.pos);
                self.pos = save;
                Val::U(v)
            }
            S::Rec(f) => self.val(&f())?,
        })
    }
}
pub fn to_int(b: &[u8], big: bool) -> u128 {
    let mut v = 0u128;
    if big {
        for &x in b {
            v = v << 8 | x as u128;
        }
    } else {
        for &x in b.iter().rev() {
            v = v << 8 | x as u128;
        }
    }
    v
}
pub fn canon_set(mut v: Vec<Val>, kind: Kind) -> Vec<Val> {
    match kind {
        Kind::Vec => v,
        Kind::Sorted | Kind::Hashed => {
            v.sort();
            v.dedup();
            v
        }
        Kind::Indexed => {
            let mut seen = std::collections::HashSet::new();
            v.retain(|x| seen.insert(x.clone()));
            v
        }
    }
}
pub fn canon_map(v: Vec<Val>, kind: Kind) -> Vec<Val> {
    match kind {
        Kind::Vec => v,
        Kind::Sorted | Kind::Hashed => {
            let mut m = std::collections::BTreeMap::new();
            for p in v {
                m.insert(p.l()[0].clone(), p.l()[1].clone());
            }
            m.into_iter().map(|(k, v)| Val::L(vec![k, v])).collect()
        }
        Kind::Indexed => {
            let mut out: Vec<Val> = vec![];
            let mut at: std::collections::HashMap<Val, usize> = std::collections::HashMap::new();
            for p in v {
                match at.get(&p.l()[0]) {
                    Some(&i) => out[i] = Val::L(vec![out[i].l()[0].clone(), p.l()[1].clone()]),
                    None => {
                        at.insert(p.l()[0].clone(), out.len());
                        out.push(p);
                    }
                }
            }
            out
        }
    }
}

/// The documented default of a type (`Default::default()`), as a `Val`.
pub fn default(s: &S) -> Val {
    match s {
        S::Flags(n) => Val::L((0..*n).map(|_| Val::U(0)).collect()),
        S::U(_) | S::Size | S::F(_) | S::Bool | S::Char | S::Varint | S::PeekU(_) | S::SetEndian => Val::U(0),
        S::I(_) => Val::I(0),
        S::NonZeroU(_) | S::NonZeroI(_) => panic!("sim: no default"),
        S::Raw(n) => Val::B(vec![0; *n]),
        S::Duration | S::SystemTime => Val::L(vec![Val::U(0), Val::U(0)]),
        S::Chrono => Val::L(vec![Val::I(0), Val::U(0)]),
        S::Regex | S::Str(_) => Val::B(vec![]),
        S::Seq { elem, kind: Kind::Vec, .. } if matches!(**elem, S::U(1)) => Val::B(vec![]),
        S::Seq { .. } | S::Map { .. } => Val::L(vec![]),
        S::Opt(_) => Val::N,
        S::Res(..) => panic!("sim: no default"),
        S::Tup(ss) => Val::L(ss.iter().map(default).collect()),
        S::Arr(n, e) => {
            if matches!(**e, S::U(1)) {
                Val::B(vec![0; *n])
            } else {
                Val::L((0..*n).map(|_| default(e)).collect())
            }
        }
        S::Struct(fs) => Val::L(fs.iter().map(|f| default(&f.s)).collect()),
        S::Enum { variants, .. } => Val::E(0, variants[0].1.iter().map(|f| default(&f.s)).collect()),
        S::Skip(_) => Val::Unit,
        S::Rec(f) => default(&f()),
    }
}

/// The fewest bytes any value of the schema takes (0 means it can be empty).
pub fn min_bytes(s: &S, depth: u32) -> usize {
    if depth > 8 {
        return 0;
    }
    let d = depth + 1;
    let w = |w: &W| match w {
        W::U7 | W::U8 | W::Var => 1,
        W::U16 => 2,
        W::U32 => 4,
        W::U64 => 8,
    };
    let ln = |l: &Len| match l {
        Len::W(x) => w(x),
        _ => 0,
    };
    let fs = |fs: &[Field]| fs.iter().map(|f| if f.skip || f.doe { 0 } else { f.prefix.len() + min_bytes(&f.s, d) }).sum::<usize>();
    match s {
        S::U(n) | S::F(n) | S::I(n) | S::NonZeroU(n) | S::NonZeroI(n) => *n as usize,
        S::Size => 8,
        S::Bool | S::SetEndian | S::Flags(_) | S::Varint | S::Opt(_) | S::Res(..) => 1,
        S::Char | S::Regex => 4,
        S::Raw(n) | S::Skip(n) => *n,
        S::Duration | S::SystemTime | S::Chrono => 12,
        S::Str(l) => ln(l),
        S::Seq { len, .. } | S::Map { len, .. } => ln(len),
        S::Tup(ss) => ss.iter().map(|s| min_bytes(s, d)).sum(),
        S::Arr(n, e) => n * min_bytes(e, d),
        S::Struct(f) => fs(f),
        S::Enum { tag, peek, variants } => (if *peek { 0 } else { w(tag) }) + variants.iter().map(|v| fs(&v.1)).min().unwrap_or(0),
        S::PeekU(_) => 0,
        S::Rec(f) => min_bytes(&f(), d),
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Traits {
    /// Some sequence has elements that can take zero bytes.
    pub zero_elem: bool,
    pub hashed: bool,
    /// The outcome can depend on where the input ends (default_on_eof, until-eof).
    pub eof_sensitive: bool,
    pub peeks: bool,
    pub switches: bool,
    pub regex: bool,
    pub recursive: bool,
    /// Some length is restricted: given by another field, or by a narrow prefix.
    pub lens: bool,
    /// Some length, tag or size is stored in 64 bits.
    pub wide: bool,
}
pub fn traits(s: &S) -> Traits {
    let mut t = Traits::default();
    scan(s, &mut t, 0);
    t
}
fn scan(s: &S, t: &mut Traits, depth: u32) {
    if depth > 6 {
        return;
    }
    let d = depth + 1;
    let mut fields = |fs: &[Field], t: &mut Traits| {
        for f in fs {
            if f.doe {
                t.eof_sensitive = true;
            }
            scan(&f.s, t, d);
        }
    };
    if let S::Str(l) | S::Seq { len: l, .. } | S::Map { len: l, .. } = s {
        t.lens |= matches!(l, Len::Field { .. } | Len::W(W::U7 | W::U8 | W::U16));
        t.wide |= matches!(l, Len::W(W::U64 | W::Var));
    }
    match s {
        S::Size => t.wide = true,
        S::Str(Len::Eof) => t.eof_sensitive = true,
        S::Regex => t.regex = true,
        S::Seq { len, elem, kind, .. } => {
            if *len == Len::Eof {
                t.eof_sensitive = true;
            }
            if *kind == Kind::Hashed {
                t.hashed = true;
            }
            if min_bytes(elem, 0) == 0 {
                t.zero_elem = true;
            }
            scan(elem, t, d);
        }
        S::Map { len, k, v, kind, .. } => {
            if *len == Len::Eof {
                t.eof_sensitive = true;
            }
            if *kind == Kind::Hashed {
                t.hashed = true;
            }
            if min_bytes(k, 0) + min_bytes(v, 0) == 0 {
                t.zero_elem = true;
            }
            scan(k, t, d);
            scan(v, t, d);
        }
        S::Opt(x) => scan(x, t, d),
        S::Res(a, b) => {
            scan(a, t, d);
            scan(b, t, d);
        }
        S::Tup(ss) => ss.iter().for_each(|s| scan(s, t, d)),
        S::Arr(_, e) => scan(e, t, d),
        S::Struct(f) => fields(f, t),
        S::Enum { tag, peek, variants } => {
            t.wide |= matches!(tag, W::U64 | W::Var);
            if *peek {
                t.peeks = true;
            }
            for v in variants {
                fields(&v.1, t);
            }
        }
        S::SetEndian => t.switches = true,
        S::PeekU(_) => t.peeks = true,
        S::Rec(f) => {
            t.recursive = true;
            scan(&f(), t, d + 2)
        }
        _ => {}
    }
}

/// How many bytes of memory one delivered byte may cost, by the type's own element sizes (see DESIGN.md, C12).
pub fn mem_factor(s: &S, depth: u32) -> u64 {
    if depth > 5 {
        return 0;
    }
    let d = depth + 1;
    let fs = |fs: &[Field]| fs.iter().map(|f| mem_factor(&f.s, d)).max().unwrap_or(0);
    match s {
        S::Str(_) | S::Regex => 8,
        S::Raw(_) => 2,
        S::Seq { elem, kind, esz, .. } => {
            let per = if *kind == Kind::Vec { 4 * *esz as u64 } else { 16 * (*esz as u64 + 16) };
            per / (min_bytes(elem, 0).max(1) as u64) + 4 + mem_factor(elem, d)
        }
        S::Map { k, v, esz, .. } => {
            let per = 24 * (*esz as u64 + 24);
            per / ((min_bytes(k, 0) + min_bytes(v, 0)).max(1) as u64) + 4 + mem_factor(k, d).max(mem_factor(v, d))
        }
        S::Opt(x) => mem_factor(x, d),
        S::Res(a, b) => mem_factor(a, d).max(mem_factor(b, d)),
        S::Tup(ss) => ss.iter().map(|s| mem_factor(s, d)).max().unwrap_or(0),
        S::Arr(_, e) => mem_factor(e, d),
        S::Struct(f) => fs(f),
        S::Enum { variants, .. } => variants.iter().map(|v| fs(&v.1)).max().unwrap_or(0),
        S::Rec(f) => 4096 + mem_factor(&f(), d),
        _ => 2,
    }
}

pub struct Gen {
    /// Remaining elements this value may still use.
    pub budget: i64,
    pub depth: u32,
    /// Allow sequences around internal buffer sizes.
    pub big: bool,
}
const SIZES: &[u32] = &[0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 126, 127, 128, 129, 254, 255, 256, 257];
const BIG_SIZES: &[u32] =
    &[1000, 1023, 1024, 1025, 2047, 2048, 2049, 4093, 4095, 4096, 4097, 8180, 8188, 8190, 8191, 8192, 8193, 8200, 12288, 16384, 20000, 32768, 65535, 65536, 70000];
impl Gen {
    fn count(&mut self, t: &mut Tape, l: Len, cheap: bool) -> usize {
        let max = match l {
            Len::W(w) => wmax(w).min(1 << 20),
            _ => 1 << 20,
        };
        let c = match t.below(8) {
            0 => t.below(2),
            1..=4 => t.below(6),
            _ if crate::SMALL => t.below(if cheap { 70 } else { 9 }),
            5 | 6 => *t.pick(SIZES),
            _ => {
                if self.big && cheap {
                    *t.pick(BIG_SIZES)
                } else {
                    *t.pick(SIZES)
                }
            }
        };
        let mut cap = if cheap { self.budget.max(3) * 8 } else { self.budget.max(0) };
        if c >= 1000 && self.big && cheap {
            // One sequence of such a size per value.
            self.big = false;
            cap = 1 << 20;
        }
        (c as u64).min(max).min(cap as u64) as usize
    }
    pub fn int(t: &mut Tape, n: u8) -> u128 {
        let bits = n as u32 * 8;
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match t.below(5) {
            0 => t.below(4) as u128,
            1 => {
                // one byte value placed anywhere: shows up swapped or misplaced bytes
                (t.range(1, 255) as u128) << (8 * t.below(n as u32))
            }
            2 => mask - t.below(3) as u128,
            3 => {
                let b = t.below(bits);
                (1u128 << b).wrapping_sub(t.below(2) as u128)
            }
            _ => (t.u64() as u128) << 64 | t.u64() as u128,
        };
        v & mask
    }
    fn sext(v: u128, n: u8) -> i128 {
        let sh = 128 - 8 * n as u32;
        ((v << sh) as i128) >> sh
    }
    fn string(t: &mut Tape, n: usize) -> Vec<u8> {
        let mut s = String::new();
        if n > 32 {
            let mut r = Rng::new(t.below(1 << 30) as u64);
            while s.len() < n {
                match r.below(8) {
                    0 => s.push('é'),
                    1 => s.push('\u{1F600}'),
                    _ => s.push((b' ' + r.below(95) as u8) as char),
                }
            }
        } else {
            while s.len() < n {
                match t.below(6) {
                    4 => s.push('é'),
                    5 => s.push('\u{1F600}'),
                    k => s.push((b'a' + k as u8) as char),
                }
            }
        }
        while s.len() > n {
            s.pop();
        }
        while s.len() < n {
            s.push('x');
        }
        s.into_bytes()
    }
    fn fields(&mut self, t: &mut Tape, fs: &[Field]) -> Vec<Val> {
        let mut out: Vec<Val> = vec![];
        for f in fs {
            let v = if f.skip {
                default(&f.s)
            } else if let Some(v) = &f.fixed {
                v.clone()
            } else if f.small {
                Val::U(t.below(9) as u128)
            } else {
                self.val_in(t, &f.s, &out)
            };
            // Sets and maps lose duplicates: the field that gives their length follows.
            let l = match &f.s {
                S::Seq { len, kind, .. } | S::Map { len, kind, .. } if *kind != Kind::Vec => Some(*len),
                _ => None,
            };
            if let (Some(Len::Field { i, mul: 1, div: 1, plus: 0 }), Val::L(x)) = (l, &v) {
                out[i] = Val::U(x.len() as u128);
            }
            out.push(v);
        }
        out
    }
    pub fn val(&mut self, t: &mut Tape, s: &S) -> Val {
        self.val_in(t, s, &[])
    }
    fn val_in(&mut self, t: &mut Tape, s: &S, done: &[Val]) -> Val {
        self.budget -= 1;
        match s {
            S::U(n) | S::F(n) => Val::U(Self::int(t, *n)),
            S::Size => Val::U(Self::int(t, 8) & usize::MAX as u128),
            S::I(n) => Val::I(Self::sext(Self::int(t, *n), *n)),
            S::NonZeroU(n) => Val::U(Self::int(t, *n).max(1)),
            S::NonZeroI(n) => match Self::sext(Self::int(t, *n), *n) {
                0 => Val::I(-1),
                v => Val::I(v),
            },
            S::Bool => Val::U(t.below(2) as u128),
            S::Char => Val::U(*t.pick(&[0u32, 0x41, 0x7F, 0x80, 0x7FF, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]) as u128),
            S::Varint => {
                let k = t.below(10);
                Val::U(match k {
                    0 => t.below(3) as u128,
                    9 => u64::MAX as u128 - t.below(3) as u128,
                    _ => (((1u128 << (7 * k)) - 1 + t.below(3) as u128).saturating_sub(1)) & u64::MAX as u128,
                })
            }
            S::Raw(n) => {
                let mut b = vec![0; *n];
                Rng::new(t.below(1 << 30) as u64).fill(&mut b);
                Val::B(b)
            }
            S::Duration => Val::L(vec![Val::U(Self::int(t, 8)), Val::U(t.below(1_000_000_000) as u128)]),
            S::SystemTime => Val::L(vec![Val::U(Self::int(t, 8) >> 2), Val::U(t.below(1_000_000_000) as u128)]),
            S::Chrono => Val::L(vec![Val::I(t.below(u32::MAX) as i128 * (1 - 2 * (t.below(2) as i128))), Val::U(t.below(1_000_000_000) as u128)]),
            S::Regex => Val::B(t.pick(&[&b""[..], b"a+b", b"^[0-9]{2,3}$", "é|ö".as_bytes()]).to_vec()),
            S::Str(l) => {
                let n = self.len(t, *l, done, true);
                Val::B(Self::string(t, n))
            }
            S::Seq { len, elem, kind, .. } => {
                let fixed = matches!(**elem, S::U(_) | S::I(_) | S::F(_));
                let n = self.len(t, *len, done, fixed && *kind == Kind::Vec);
                if *kind == Kind::Vec && fixed && (n > 12 || matches!(**elem, S::U(1))) {
                    let mut r = Rng::new(t.below(1 << 30) as u64 + n as u64);
                    return match **elem {
                        S::U(1) => {
                            let mut b = vec![0; n];
                            r.fill(&mut b);
                            Val::B(b)
                        }
                        S::I(k) => Val::L((0..n).map(|_| Val::I(Self::sext((r.next() as u128) << 64 | r.next() as u128, k))).collect()),
                        S::U(k) | S::F(k) => {
                            let m = if k == 16 { u128::MAX } else { (1u128 << (8 * k as u32)) - 1 };
                            Val::L((0..n).map(|_| Val::U(((r.next() as u128) << 64 | r.next() as u128) & m)).collect())
                        }
                        _ => unreachable!(),
                    };
                }
                let mut out = vec![];
                self.depth += 1;
                for _ in 0..n {
                    out.push(self.val(t, elem));
                }
                self.depth -= 1;
                // A length given by another field counts elements before deduplication, so keep those as they are.
                Val::L(canon_set(out, *kind))
            }
            S::Map { len, k, v, kind, .. } => {
                let n = self.len(t, *len, done, false);
                let mut out = vec![];
                self.depth += 1;
                for _ in 0..n {
                    let a = self.val(t, k);
                    let b = self.val(t, v);
                    out.push(Val::L(vec![a, b]));
                }
                self.depth -= 1;
                Val::L(canon_map(out, *kind))
            }
            S::Opt(x) => {
                if t.below(2) == 0 || self.depth > 6 {
                    Val::N
                } else {
                    self.depth += 1;
                    let v = self.val_in(t, x, done);
                    self.depth -= 1;
                    Val::S(Box::new(v))
                }
            }
            S::Res(a, b) => {
                if t.below(2) == 0 {
                    Val::E(0, vec![self.val(t, a)])
                } else {
                    Val::E(1, vec![self.val(t, b)])
                }
            }
            S::Tup(ss) => Val::L(ss.iter().map(|s| self.val(t, s)).collect()),
            S::Arr(n, e) => {
                if matches!(**e, S::U(1)) {
                    let mut b = vec![0; *n];
                    Rng::new(t.below(1 << 30) as u64).fill(&mut b);
                    return Val::B(b);
                }
                Val::L((0..*n).map(|_| self.val(t, e)).collect())
            }
            S::Struct(fs) => Val::L(self.fields(t, fs)),
            S::Enum { variants, .. } => {
                let i = if self.depth > 8 || self.budget < 0 { 0 } else { t.below(variants.len() as u32) };
                self.depth += 1;
                let v = self.fields(t, &variants[i as usize].1);
                self.depth -= 1;
                Val::E(i, v)
            }
            S::Flags(n) => Val::L((0..*n).map(|_| Val::U(t.below(2) as u128)).collect()),
            S::SetEndian => Val::U(t.below(2) as u128),
            S::Skip(_) => Val::Unit,
            S::PeekU(_) => panic!("sim: needs its own generator"),
            S::Rec(f) => {
                self.depth += 1;
                let v = self.val(t, &f());
                self.depth -= 1;
                v
            }
        }
    }
    fn len(&mut self, t: &mut Tape, l: Len, done: &[Val], cheap: bool) -> usize {
        match l {
            Len::Field { i, mul, div, plus } => done[i].u() as usize * mul / div + plus,
            _ => {
                if self.depth > 6 {
                    0
                } else {
                    self.count(t, l, cheap)
                }
            }
        }
    }
}
