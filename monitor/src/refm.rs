//! Independent reference model: what a composition must decode from, and encode to, a byte string.
use crate::shape::{refused, Shape};
use crate::value::*;
use bytecodec::ErrorKind;

pub type Mask = u8;
pub fn bit(k: ErrorKind) -> Mask {
    match k {
        ErrorKind::InvalidInput => 1,
        ErrorKind::InconsistentState => 2,
        ErrorKind::UnexpectedEos => 4,
        ErrorKind::EncoderFull => 8,
        ErrorKind::DecoderTerminated => 16,
        ErrorKind::IncompleteDecoding => 32,
        ErrorKind::Other => 64,
    }
}
pub const INVALID: Mask = 1;
pub const EOS: Mask = 4;
pub const INCOMPLETE: Mask = 32;
pub const OTHER: Mask = 64;
/// Failure of any kind, possibly only when finishing.
pub const ANY: Mask = 0xff;

/// Outcome of decoding one item from a stream whose end is the end of `b`.
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// The item takes `n` bytes; finishing yields the item or one of the error kinds.
    /// `needs_eos`: it is complete only once the end of the stream has been announced.
    Ok { n: usize, item: Result<Value, Mask>, needs_eos: bool },
    /// A decode call fails with one of the kinds, at the latest on the call announcing the end.
    Fail(Mask),
    /// Never completes although the end was announced (`maybe_eos` on an empty stream).
    Pending,
    /// Outside of what is specified (trailing bytes behind a bincode document, ...).
    Ill,
}

/// All the error kinds that components of the shape can report because of bad contents.
pub fn content_errors(s: &Shape) -> Mask {
    let own = match s {
        Shape::Utf8 | Shape::Utf8N(_) | Shape::Pad(Some(_)) | Shape::Json | Shape::Bin | Shape::MaxBytes(..) => INVALID,
        Shape::TryMap(_) => INVALID | OTHER,
        Shape::Length(..) | Shape::LenPrefix(..) => EOS | INCOMPLETE,
        _ => 0,
    };
    s.children().iter().fold(own, |m, c| m | content_errors(c))
}

fn seq(parts: &[&Shape], b: &[u8]) -> Res {
    let mut off = 0;
    let mut needs = false;
    let mut items = Ok(Vec::new());
    for p in parts {
        match decode(p, &b[off..]) {
            Res::Ok { n, item, needs_eos } => {
                off += n;
                needs |= needs_eos;
                match (item, &mut items) {
                    (Ok(v), Ok(l)) => l.push(v),
                    (Err(m), Ok(_)) => items = Err(m),
                    (_, Err(_)) => {}
                }
            }
            r => return r,
        }
    }
    Res::Ok { n: off, item: items.map(Value::List), needs_eos: needs }
}

fn region(n: u64, inner: &Shape, b: &[u8]) -> Res {
    if (b.len() as u64) < n {
        // An inner item that is complete by then may be refused (as too short) before the end is announced.
        let early = matches!(decode(inner, b), Res::Ok { needs_eos: false, .. } | Res::Ill | Res::Fail(ANY));
        return Res::Fail(if early { ANY } else { EOS | content_errors(inner) });
    }
    let n = n as usize;
    match decode(inner, &b[..n]) {
        Res::Ok { n: m, item, .. } if m == n => Res::Ok { n, item, needs_eos: false },
        // Shorter than declared: refused when finishing.
        Res::Ok { n: m, needs_eos, .. } => Res::Ok { n: m, item: Err(INCOMPLETE), needs_eos },
        r => r,
    }
}

fn many(inner: &Shape, b: &[u8], count: Option<u64>) -> Res {
    let mut off = 0;
    let mut items = vec![];
    let mut needs = count.is_none();
    loop {
        match count {
            None if off == b.len() => break,
            Some(c) if c == items.len() as u64 => break,
            _ => {}
        }
        match decode(inner, &b[off..]) {
            Res::Ok { n, item: Ok(v), needs_eos } => {
                off += n;
                if n == 0 && count.is_none() {
                    return Res::Ill;
                }
                needs |= needs_eos;
                items.push(v);
            }
            Res::Ok { item: Err(m), .. } => return Res::Fail(m),
            Res::Pending if count.is_some() => return Res::Fail(EOS),
            r => return r,
        }
    }
    Res::Ok { n: off, item: Ok(Value::List(items)), needs_eos: needs }
}

fn map_item(r: Res, f: impl FnOnce(Value) -> Result<Value, Mask>) -> Res {
    match r {
        Res::Ok { n, item, needs_eos } => Res::Ok { n, item: item.and_then(f), needs_eos },
        r => r,
    }
}

pub fn decode(s: &Shape, b: &[u8]) -> Res {
    let fixed = |n: usize, f: &dyn Fn(&[u8]) -> Result<Value, Mask>| {
        if b.len() < n {
            Res::Fail(EOS)
        } else {
            Res::Ok { n, item: f(&b[..n]), needs_eos: false }
        }
    };
    let rest = |item: Result<Value, Mask>| Res::Ok { n: b.len(), item, needs_eos: true };
    let text = |x: &[u8]| std::str::from_utf8(x).map(|s| Value::Str(s.to_owned())).map_err(|_| INVALID);
    match s {
        Shape::Num(k) => fixed(k.width(), &|x| Ok(k.from_wire(x))),
        Shape::Fixed(n) | Shape::OneShot(n) => fixed(*n, &|x| Ok(Value::Bytes(x.to_vec()))),
        Shape::Utf8N(n) => fixed(*n, &text),
        Shape::Rest => rest(Ok(Value::Bytes(b.to_vec()))),
        Shape::Utf8 => rest(text(b)),
        Shape::Pad(e) => {
            if e.is_some_and(|e| b.iter().any(|&x| x != e)) {
                Res::Fail(INVALID)
            } else {
                rest(Ok(Value::Unit))
            }
        }
        Shape::Line(_) => match b.iter().position(|&x| x == 0) {
            Some(i) => Res::Ok { n: i + 1, item: Ok(Value::Bytes(b[..i].to_vec())), needs_eos: false },
            None => Res::Fail(EOS),
        },
        Shape::Null => Res::Ok { n: 0, item: Ok(Value::Unit), needs_eos: false },
        Shape::Json => match serde_json::from_slice::<Doc>(b) {
            Ok(d) => rest(Ok(Value::Json(Box::new(d)))),
            Err(_) => Res::Fail(INVALID),
        },
        Shape::Bin => {
            let mut c = std::io::Cursor::new(b);
            match bincode::deserialize_from::<_, BDoc>(&mut c) {
                Ok(_) if c.position() != b.len() as u64 => Res::Ill,
                Ok(d) => rest(Ok(Value::Bin(Box::new(d)))),
                Err(_) => Res::Fail(INVALID),
            }
        }
        Shape::Length(n, a) => region(*n, a, b),
        Shape::LenPrefix(k, a) => {
            if b.len() < k.width() {
                return Res::Fail(EOS);
            }
            let n = k.from_wire(b).u();
            match region(n, a, &b[k.width()..]) {
                Res::Ok { n, item, needs_eos } => Res::Ok { n: n + k.width(), item, needs_eos },
                r => r,
            }
        }
        Shape::CountPrefix(k, a) => {
            if b.len() < k.width() {
                return Res::Fail(EOS);
            }
            let c = k.from_wire(b).u();
            match many(a, &b[k.width()..], Some(c)) {
                Res::Ok { n, item, needs_eos } => Res::Ok { n: n + k.width(), item, needs_eos },
                r => r,
            }
        }
        Shape::Switch(v) => {
            if b.is_empty() {
                return Res::Fail(EOS);
            }
            let i = b[0] as usize % v.len();
            match decode(&v[i], &b[1..]) {
                Res::Ok { n, item, needs_eos } => {
                    Res::Ok { n: n + 1, item: item.map(|x| Value::Sum(i, Box::new(x))), needs_eos }
                }
                r => r,
            }
        }
        Shape::Tuple(v) => seq(&v.iter().collect::<Vec<_>>(), b),
        Shape::Chain(x, y) => seq(&[x, y], b),
        Shape::Collect(a) => many(a, b, None),
        Shape::CollectN(n, a) => many(a, b, Some(*n as u64)),
        Shape::Omit(true, _) => Res::Ok { n: 0, item: Ok(Value::Opt(None)), needs_eos: false },
        Shape::Omit(false, a) => map_item(decode(a, b), |v| Ok(Value::Opt(Some(Box::new(v))))),
        Shape::Map(a) => map_item(decode(a, b), |v| Ok(Value::Mapped(Box::new(v)))),
        Shape::TryMap(a) => map_item(decode(a, b), |v| match refused(&v) {
            Some(k) => Err(bit(k)),
            None => Ok(Value::Mapped(Box::new(v))),
        }),
        Shape::MapErr(a) | Shape::Slice(a) | Shape::Boxed(a) => decode(a, b),
        Shape::Peek(a) => match decode(a, b) {
            Res::Ok { item: Err(m), .. } => Res::Fail(m),
            r => r,
        },
        // Specified where the item takes the whole (rest of the) stream.
        Shape::MaxBytes(n, a) => {
            match decode(a, b) {
                Res::Ok { n, .. } if n != b.len() => Res::Ill,
                Res::Ill => Res::Ill,
                Res::Fail(ANY) => Res::Fail(ANY),
                _ if b.len() as u64 > *n => Res::Fail(INVALID | content_errors(a) | EOS),
                r => r,
            }
        }
        Shape::MaybeEos(a) => {
            let r = decode(a, b);
            if b.is_empty() && a.any(&|s| matches!(s, Shape::MaxBytes(..) | Shape::Length(0, _))) {
                return Res::Ill;
            }
            if b.is_empty() {
                match r {
                    Res::Ok { needs_eos: false, .. } | Res::Ill => r,
                    Res::Fail(m) if m & EOS == 0 && !a.eos_delimited() => r,
                    _ => Res::Pending,
                }
            } else {
                r
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EncErr {
    /// `start_encoding` refuses the item with one of the kinds.
    Refused(Mask),
    /// Not encodable by the compositions of this harness.
    Unsupported,
}

pub fn encode(s: &Shape, v: &Value) -> Result<Vec<u8>, EncErr> {
    let mut out = vec![];
    enc(s, v, None, &mut out)?;
    Ok(out)
}
pub fn pad_byte(e: Option<u8>) -> u8 {
    e.unwrap_or(0xee)
}

/// `room`: bytes up to the end of the enclosing length-delimited region.
fn enc(s: &Shape, v: &Value, room: Option<usize>, out: &mut Vec<u8>) -> Result<(), EncErr> {
    let start = out.len();
    let left = |out: &Vec<u8>| room.map(|r| r.saturating_sub(out.len() - start));
    let bad = || panic!("HARNESS: {:?} is no item of {:?}", v, s);
    match (s, v) {
        (Shape::Num(k), v) => out.extend(k.to_wire(v).ok_or(EncErr::Refused(INVALID))?),
        (Shape::Fixed(_) | Shape::OneShot(_) | Shape::Rest, Value::Bytes(b)) => out.extend(b),
        (Shape::Line(_), Value::Bytes(b)) => {
            out.extend(b);
            out.push(0);
        }
        (Shape::Utf8 | Shape::Utf8N(_), Value::Str(b)) => out.extend(b.as_bytes()),
        (Shape::Pad(e), _) => match room {
            Some(r) => out.extend(std::iter::repeat(pad_byte(*e)).take(r)),
            None => return Err(EncErr::Unsupported),
        },
        (Shape::Null, _) => {}
        (Shape::Json, Value::Json(d)) => out.extend(serde_json::to_vec(d).unwrap()),
        (Shape::Bin, Value::Bin(d)) => out.extend(bincode::serialize(d).unwrap()),
        (Shape::Length(n, a), v) => {
            enc(a, v, Some(*n as usize), out)?;
            if (out.len() - start) as u64 != *n {
                return Err(EncErr::Unsupported);
            }
        }
        (Shape::LenPrefix(k, a), v) => {
            let mut inner = vec![];
            enc(a, v, None, &mut inner)?;
            out.extend(k.to_wire(&Value::U(inner.len() as u64)).ok_or(EncErr::Refused(INVALID))?);
            out.extend(inner);
        }
        (Shape::CountPrefix(k, a), Value::List(l)) => {
            out.extend(k.to_wire(&Value::U(l.len() as u64)).ok_or(EncErr::Refused(INVALID))?);
            for x in l {
                enc(a, x, None, out)?;
            }
        }
        (Shape::Switch(c), Value::Sum(i, v)) => {
            out.push(*i as u8);
            enc(&c[*i], v, left(out), out)?;
        }
        (Shape::Tuple(c), Value::List(l)) => {
            for (c, x) in c.iter().zip(l) {
                enc(c, x, left(out), out)?;
            }
        }
        (Shape::Chain(a, b), Value::List(l)) => {
            enc(a, &l[0], left(out), out)?;
            enc(b, &l[1], left(out), out)?;
        }
        (Shape::Collect(a), Value::List(l)) | (Shape::CollectN(_, a), Value::List(l)) => {
            for x in l {
                enc(a, x, None, out)?;
            }
        }
        (Shape::Omit(_, a), Value::Opt(o)) => {
            if let Some(x) = o {
                enc(a, x, room, out)?;
            }
        }
        (Shape::Map(a), Value::Mapped(x)) => enc(a, x, room, out)?,
        (Shape::TryMap(a), Value::Mapped(x)) => {
            if let Some(k) = refused(x) {
                return Err(EncErr::Refused(bit(k)));
            }
            enc(a, x, room, out)?
        }
        // encodes via `pre_encode`, which cannot hold infinite items
        (Shape::Peek(a), v) => enc(a, v, None, out)?,
        (Shape::MaxBytes(n, a), v) => {
            enc(a, v, room, out)?;
            if (out.len() - start) as u64 > *n {
                return Err(EncErr::Unsupported);
            }
        }
        (Shape::MapErr(a) | Shape::Slice(a) | Shape::MaybeEos(a) | Shape::Boxed(a), v) => enc(a, v, room, out)?,
        _ => bad(),
    }
    Ok(())
}

/// Expected course of decoding a whole stream with one decoder.
#[derive(Clone, Debug, PartialEq)]
pub struct Course {
    /// (item, absolute position behind it, completion needs the end of stream to be announced)
    pub items: Vec<(Result<Value, Mask>, usize, bool)>,
    pub end: CourseEnd,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CourseEnd {
    /// stopped after the last item
    Done,
    Fail(Mask),
    Pending,
    Ill,
}
pub fn course(s: &Shape, b: &[u8], max_items: usize) -> Course {
    let mut pos = 0;
    let mut items = vec![];
    loop {
        match decode(s, &b[pos..]) {
            Res::Ok { n, item, needs_eos } => {
                pos += n;
                let stop = item == Err(INCOMPLETE);
                items.push((item, pos, needs_eos));
                if items.len() == max_items || pos == b.len() || stop {
                    return Course { items, end: CourseEnd::Done };
                }
            }
            Res::Fail(m) => return Course { items, end: CourseEnd::Fail(m) },
            Res::Pending => return Course { items, end: CourseEnd::Pending },
            Res::Ill => return Course { items, end: CourseEnd::Ill },
        }
    }
}
