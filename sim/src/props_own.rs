//! C21: what a decoded value is made of afterwards: memory of its own, or exactly the caller's bytes.
use crate::api::*;
use crate::base::*;
use crate::model::*;
use crate::os::*;
use crate::props::*;
use crate::stream::*;

fn ok(v: &Val) -> Expect {
    Expect { want: Want::Ok(v.clone()), pos: 0, extent: 0, saw_eof: false }
}
fn borrows(how: How) -> bool {
    matches!(how, How::Buf | How::BufLen)
}
/// Other decodes, of other bytes, while the value under test is alive.
fn bystanders(e: &'static Entry, n: u32) {
    for _ in 0..n {
        let e = if chance(1, 2) { e } else { pick(|e| !e.t.zero_elem) };
        let big = draw_big(e);
        let v = e.gen(false);
        let mut d = encode(&e.s, &v, big);
        if chance(1, 4) {
            d.truncate(below(d.len() as u32 + 1) as usize);
        }
        let how = *w().tape.pick(hows(e));
        let g = Guarded::new(&d, below(9) as usize);
        let (o, _) = run_how(e, big, g.bytes(), how);
        ev("bystander", o.r.is_ok() as u64, d.len() as u64);
        count("decodes while the value was alive", 1);
    }
}
pub fn c21() -> Res {
    if chance(1, 6) {
        return c21_sequence();
    }
    let e = if chance(1, 4) {
        let e = aligned().any();
        ev(e.name, 0, 0);
        note(|| format!("type {}", e.name));
        e
    } else if chance(1, 3) {
        pick(|e| e.borrowed || e.name.contains("Cow") || e.name.contains("Wide"))
    } else {
        pick(|_| true)
    };
    let big = draw_big(e);
    let (v, d) = sample(e, big, chance(1, 5));
    let how = *w().tape.pick(hows(e));
    let g = Guarded::new(&d, below(9) as usize);
    note(|| format!("decoded by {:?} from {} bytes at ..{:x}", how, d.len(), g.place().0 & 0xFF));
    // Only what happens after the decode is judged here.
    match run_how(e, big, g.bytes(), how).0.r {
        Ok(ref x) if *x == v => {}
        _ => return Ok(()),
    }
    let place = g.place();
    let recycle = if borrows(how) { None } else { Some(below(3)) };
    let n = below(3);
    w().after = Some(Box::new(move || {
        if let Some(r) = recycle {
            Guarded::recycle(place, r);
            if how == How::File {
                let other = vec![0xA5; below(40) as usize];
                w().disk.put("in", other);
            }
            fired(["buffer unmapped after the decode", "buffer overwritten after the decode", "buffer changed after the decode"][r as usize]);
        }
        bystanders(e, n);
        w().parts = Some(vec![]);
    }));
    // The same draws again, so that the stream delivers anew.
    let (o, _) = run_how(e, big, g.bytes(), how);
    w().after = None;
    let parts = w().parts.take().unwrap_or_default();
    ev("parts", parts.len() as u64, parts.iter().filter(|p| !p.owned).count() as u64);
    if !borrows(how) {
        count("values whose source was gone", 1);
        return match compare(e.name, how, &ok(&v), &DecOut { used: None, ..o }, false) {
            Ok(()) => Ok(()),
            Err(x) => viol("value changed with its source", format!("{}: {}", x.class, x.msg)),
        };
    }
    compare(e.name, how, &ok(&v), &DecOut { used: None, ..o }, false)?;
    count("borrowing decodes", 1);
    let (lo, hi) = (place.0, place.0 + place.1);
    let mut lent: Vec<&Part> = vec![];
    for p in parts.iter().filter(|p| p.len > 0) {
        if !p.owned {
            if p.at < lo || p.at + p.len > hi {
                return viol("borrows from elsewhere", format!("{} by {:?}: {} bytes which are not in the caller's buffer", e.name, how, p.len));
            }
            lent.push(p);
            continue;
        }
        if e.t.eof_sensitive || !p.raw || (p.align > 1 && big) {
            continue;
        }
        // Every place that could have been borrowed from would have done.
        let mut places = d.windows(p.len).enumerate().filter(|(_, y)| *y == p.copy).map(|(i, _)| lo + i).peekable();
        if places.peek().is_some() && places.all(|a| a % p.align == 0) {
            return viol("copied instead of borrowed", format!("{} by {:?}: {} bytes, alignment {}", e.name, how, p.len, p.align));
        }
    }
    count("borrowed parts", lent.len() as u64);
    lent.sort_by_key(|p| p.at);
    for x in lent.windows(2) {
        if x[0].at + x[0].len > x[1].at {
            return viol("borrowed parts overlap", format!("{} by {:?}", e.name, how));
        }
    }
    Ok(())
}
struct Seq {
    s: *mut SimStream<'static>,
    items: Vec<(&'static Entry, bool, Val)>,
    res: Res,
}
/// Decodes the rest of the sequence while the values before are alive.
fn next(q: *mut Seq, i: usize) {
    let q = unsafe { &mut *q };
    if i >= q.items.len() || q.res.is_err() {
        return;
    }
    let (e, big, v) = q.items[i].clone();
    let p: *mut Seq = q;
    let mut reached = false;
    let r: *mut bool = &mut reached;
    w().after = Some(Box::new(move || {
        unsafe { *r = true };
        next(p, i + 1)
    }));
    let o = (e.dec)(big, Way::StreamU(unsafe { &mut *q.s }));
    w().after = None;
    if reached && q.res.is_ok() {
        if let Err(x) = compare(e.name, How::U, &ok(&v), &o, false) {
            q.res = viol("value changed by later decodes", format!("value {} of the sequence: {}: {}", i, x.class, x.msg));
        }
    }
}
fn c21_sequence() -> Res {
    let n = range(2, 5);
    let mut data = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let e = pick(|e| !e.borrowed && !e.t.eof_sensitive);
        let big = draw_big(e);
        let (v, d) = sample(e, big, chance(1, 6));
        data.extend(d);
        items.push((e, big, v));
    }
    // Judged only if the values decode one at a time.
    let mut s = SimStream::plain(&data);
    for (e, big, v) in &items {
        match (e.dec)(*big, Way::StreamU(&mut s)).r {
            Ok(ref x) if x == v => {}
            _ => return Ok(()),
        }
    }
    let mut s = SimStream::draw(&data);
    note(|| s.describe());
    let s: *mut SimStream<'static> = (&mut s as *mut SimStream).cast();
    let mut q = Seq { s, items, res: Ok(()) };
    next(&mut q, 0);
    w().after = None;
    count("values kept while the stream went on", n as u64);
    q.res
}
