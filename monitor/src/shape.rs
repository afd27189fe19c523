//! Descriptions of codec compositions, and generators for them and their items.
use crate::rng::{hash_of, Rng};
use crate::value::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[allow(non_camel_case_types)]
pub enum NumKind {
    U8,
    I8,
    U16be,
    U16le,
    I16be,
    I16le,
    U24be,
    U24le,
    U32be,
    U32le,
    I32be,
    I32le,
    U40be,
    U40le,
    U48be,
    U48le,
    U56be,
    U56le,
    U64be,
    U64le,
    I64be,
    I64le,
    F32be,
    F32le,
    F64be,
    F64le,
}
use NumKind::*;
pub const NUMS: [NumKind; 26] = [
    U8, I8, U16be, U16le, I16be, I16le, U24be, U24le, U32be, U32le, I32be, I32le, U40be, U40le,
    U48be, U48le, U56be, U56le, U64be, U64le, I64be, I64le, F32be, F32le, F64be, F64le,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    U,
    I,
    F,
}
impl NumKind {
    pub fn width(self) -> usize {
        match self {
            U8 | I8 => 1,
            U16be | U16le | I16be | I16le => 2,
            U24be | U24le => 3,
            U32be | U32le | I32be | I32le | F32be | F32le => 4,
            U40be | U40le => 5,
            U48be | U48le => 6,
            U56be | U56le => 7,
            U64be | U64le | I64be | I64le | F64be | F64le => 8,
        }
    }
    pub fn class(self) -> Class {
        match self {
            I8 | I16be | I16le | I32be | I32le | I64be | I64le => Class::I,
            F32be | F32le | F64be | F64le => Class::F,
            _ => Class::U,
        }
    }
    pub fn big(self) -> bool {
        matches!(
            self,
            U8 | I8 | U16be | I16be | U24be | U32be | I32be | U40be | U48be | U56be | U64be | I64be
                | F32be | F64be
        )
    }
    /// Odd widths whose Rust item type is wider than the wire format.
    pub fn refusable(self) -> bool {
        matches!(self, U24be | U24le | U40be | U40le | U48be | U48le | U56be | U56le)
    }
    pub fn max(self) -> u64 {
        if self.width() == 8 {
            u64::MAX
        } else {
            (1u64 << (8 * self.width())) - 1
        }
    }
    /// Reference decoding of exactly `width` bytes.
    pub fn from_wire(self, b: &[u8]) -> Value {
        let mut x: u64 = 0;
        for i in 0..self.width() {
            let byte = if self.big() { b[i] } else { b[self.width() - 1 - i] };
            x = x * 256 + byte as u64;
        }
        match self.class() {
            Class::U => Value::U(x),
            Class::F => Value::F(x),
            Class::I => {
                let sh = 64 - 8 * self.width() as u32;
                Value::I(((x << sh) as i64) >> sh)
            }
        }
    }
    /// Reference encoding, `None` if the value does not fit.
    pub fn to_wire(self, v: &Value) -> Option<Vec<u8>> {
        let w = self.width();
        let x = match v {
            Value::U(x) | Value::F(x) => {
                if *x > self.max() {
                    return None;
                }
                *x
            }
            Value::I(i) => *i as u64,
            _ => panic!("HARNESS: bad number {:?}", v),
        };
        let mut out = vec![0; w];
        for (i, o) in out.iter_mut().enumerate() {
            let sh = if self.big() { 8 * (w - 1 - i) } else { 8 * i };
            *o = (x >> sh) as u8;
        }
        Some(out)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Num(NumKind),
    /// `CopyableBytesDecoder<[u8; N]>` / `BytesEncoder<Vec<u8>>`
    Fixed(usize),
    /// `BytesDecoder<Vec<u8>>` (decodes one item)
    OneShot(usize),
    Rest,
    Utf8,
    /// `Utf8Decoder` over `BytesDecoder` (decodes one item)
    Utf8N(usize),
    Pad(Option<u8>),
    Null,
    /// User-defined: bytes up to a zero byte. `true`: claims that at least one byte is missing, `false`: claims nothing.
    Line(bool),
    Json,
    Bin,
    Length(u64, Box<Shape>),
    LenPrefix(NumKind, Box<Shape>),
    CountPrefix(NumKind, Box<Shape>),
    Switch(Vec<Shape>),
    Tuple(Vec<Shape>),
    Chain(Box<Shape>, Box<Shape>),
    Collect(Box<Shape>),
    CollectN(usize, Box<Shape>),
    Omit(bool, Box<Shape>),
    Map(Box<Shape>),
    TryMap(Box<Shape>),
    MapErr(Box<Shape>),
    MaxBytes(u64, Box<Shape>),
    Slice(Box<Shape>),
    /// decode: `peekable`, encode: `pre_encode`
    Peek(Box<Shape>),
    MaybeEos(Box<Shape>),
    Boxed(Box<Shape>),
}
use Shape::*;

pub const FIXED_SIZES: [usize; 24] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 255, 256, 257, 300, 1023, 1024, 1025, 2048, 4096, 4097, 65537,
];

/// The item function of `Map` is `Value::Mapped`; `TryMap` refuses the following items.
pub fn refused(v: &Value) -> Option<bytecodec::ErrorKind> {
    match hash_of(v) % 5 {
        0 => Some(bytecodec::ErrorKind::InvalidInput),
        1 => Some(bytecodec::ErrorKind::Other),
        _ => None,
    }
}

impl Shape {
    pub fn b(self) -> Box<Shape> {
        Box::new(self)
    }
    pub fn children(&self) -> Vec<&Shape> {
        match self {
            Length(_, a) | LenPrefix(_, a) | CountPrefix(_, a) | Collect(a) | CollectN(_, a)
            | Omit(_, a) | Map(a) | TryMap(a) | MapErr(a) | MaxBytes(_, a) | Slice(a) | Peek(a)
            | MaybeEos(a) | Boxed(a) => vec![a],
            Switch(v) | Tuple(v) => v.iter().collect(),
            Chain(a, b) => vec![a, b],
            _ => vec![],
        }
    }
    pub fn any(&self, f: &dyn Fn(&Shape) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn nodes(&self) -> usize {
        1 + self.children().iter().map(|c| c.nodes()).sum::<usize>()
    }
    /// Can decode further items after the first one.
    pub fn reusable(&self) -> bool {
        match self {
            OneShot(_) | Utf8N(_) | CollectN(..) => false,
            // The second decoder is built anew for each item.
            LenPrefix(..) | CountPrefix(..) | Switch(_) => true,
            _ => self.children().iter().all(|c| c.reusable()),
        }
    }
    /// Lower bound of the bytes of an item.
    pub fn min_size(&self) -> u64 {
        match self {
            Num(k) => k.width() as u64,
            Fixed(n) | OneShot(n) | Utf8N(n) => *n as u64,
            Rest | Utf8 | Pad(_) | Null | Collect(_) => 0,
            Json | Bin | Line(_) => 1,
            Length(n, _) => *n,
            LenPrefix(k, _) | CountPrefix(k, _) => k.width() as u64,
            Switch(v) => 1 + v.iter().map(|s| s.min_size()).min().unwrap_or(0),
            Tuple(v) => v.iter().map(|s| s.min_size()).sum(),
            Chain(a, b) => a.min_size() + b.min_size(),
            CollectN(n, a) => *n as u64 * a.min_size(),
            Omit(o, a) => {
                if *o {
                    0
                } else {
                    a.min_size()
                }
            }
            Map(a) | TryMap(a) | MapErr(a) | MaxBytes(_, a) | Slice(a) | Peek(a) | MaybeEos(a)
            | Boxed(a) => a.min_size(),
        }
    }
    /// May the item be delimited by the end of the stream (of the enclosing region)?
    pub fn eos_delimited(&self) -> bool {
        match self {
            Rest | Utf8 | Pad(_) | Json | Bin | Collect(_) => true,
            Length(..) | LenPrefix(..) => false,
            CountPrefix(_, a) => a.eos_delimited(),
            Omit(o, a) => !*o && a.eos_delimited(),
            _ => self.children().iter().any(|c| c.eos_delimited()),
        }
    }
    /// The encoder knows the exact number of bytes (implements `SizedEncode`).
    pub fn sized(&self) -> bool {
        match self {
            Num(_) | Fixed(_) | OneShot(_) | Rest | Utf8 | Utf8N(_) | Null | Length(..) | Peek(_) => true,
            Pad(_) | Json | Bin | Line(_) | CountPrefix(..) | Collect(_) | CollectN(..) => false,
            LenPrefix(_, a) => a.sized(),
            _ => self.children().iter().all(|c| c.sized()),
        }
    }
    /// Only usable for decoding.
    pub fn has_pad(&self) -> bool {
        self.any(&|s| matches!(s, Pad(_)))
    }
    pub fn tags(&self) -> String {
        let d = format!("{:?}", self);
        d
    }
}

#[derive(Clone, Copy)]
pub struct GenOpt {
    /// Byte budget that steers sizes of leaves.
    pub size: usize,
    pub depth: usize,
    /// allow verdict nodes (TryMap), wrong lengths, MaybeEos, ... (decode only shapes)
    pub decode_only: bool,
    pub need_reusable: bool,
    pub big: bool,
}

pub fn gen_fixed(r: &mut Rng, size: usize) -> usize {
    let c: Vec<usize> = FIXED_SIZES.iter().copied().filter(|&n| n <= size).collect();
    *r.pick(&c)
}
pub fn small_prefix(r: &mut Rng) -> NumKind {
    *r.pick(&[U8, U16be, U16le, U24be, U24le, U32be, U32le, U40be, U48le, U56be, U64be, U64le])
}

/// A leaf or composition whose item does not extend to the end of the stream by itself.
pub fn gen_closed(r: &mut Rng, o: GenOpt) -> Shape {
    for _ in 0..50 {
        let s = gen_any(r, o, false);
        if !s.eos_delimited() {
            return s;
        }
    }
    Num(U16be)
}

/// Shape usable as the payload of a region (its item takes the whole region).
pub fn gen_region(r: &mut Rng, o: GenOpt) -> Shape {
    match r.below(if o.depth == 0 { 5 } else { 10 }) {
        0 | 1 => Rest,
        2 => Utf8,
        3 => Pad(if r.bool() { Some(r.byte()) } else { None }),
        4 => {
            if r.bool() {
                Json
            } else {
                Bin
            }
        }
        5 | 6 => {
            let mut inner = gen_closed(r, GenOpt { depth: o.depth - 1, size: o.size / 2, need_reusable: true, ..o });
            if inner.min_size() == 0 || !inner.reusable() {
                inner = Num(*r.pick(&NUMS));
            }
            Collect(inner.b())
        }
        7 => {
            let head = gen_closed(r, GenOpt { depth: 0, size: o.size / 2, ..o });
            let tail = gen_region(r, GenOpt { depth: o.depth - 1, size: o.size / 2, ..o });
            if r.bool() {
                Tuple(vec![head, tail])
            } else {
                Chain(head.b(), tail.b())
            }
        }
        8 => wrap(r, o, |r, o| gen_region(r, o)),
        _ => {
            let inner = gen_region(r, GenOpt { depth: o.depth - 1, ..o });
            MaxBytes(r.range(0, o.size as u64 * 2), inner.b())
        }
    }
}

fn wrap(r: &mut Rng, o: GenOpt, g: impl Fn(&mut Rng, GenOpt) -> Shape) -> Shape {
    let inner = g(r, GenOpt { depth: o.depth.saturating_sub(1), ..o }).b();
    match r.below(8) {
        0 | 1 => Map(inner),
        2 => MapErr(inner),
        3 => Slice(inner),
        4 => Peek(inner),
        5 => Boxed(inner),
        6 => {
            if o.decode_only {
                TryMap(inner)
            } else {
                Map(inner)
            }
        }
        _ => Omit(r.chance(1, 4), inner),
    }
}

pub fn gen_any(r: &mut Rng, o: GenOpt, allow_eos: bool) -> Shape {
    let o1 = GenOpt { depth: o.depth.saturating_sub(1), ..o };
    let leaf = o.depth == 0;
    match r.below(if leaf { 6 } else { 20 }) {
        0 | 1 => Num(*r.pick(&NUMS)),
        2 => Fixed(gen_fixed(r, o.size)),
        3 => {
            if o.need_reusable {
                Num(*r.pick(&NUMS))
            } else if r.bool() {
                OneShot(gen_fixed(r, o.size))
            } else {
                Utf8N(r.us(o.size.min(12) + 1))
            }
        }
        4 => {
            if allow_eos {
                gen_region(r, o1)
            } else if r.chance(1, 4) {
                Null
            } else {
                Num(*r.pick(&NUMS))
            }
        }
        5 => {
            if r.bool() {
                Num(U8)
            } else {
                Line(r.bool())
            }
        }
        6 | 7 => {
            let k = small_prefix(r);
            let region = if r.chance(3, 4) { gen_region(r, o1) } else { gen_closed(r, GenOpt { need_reusable: false, ..o1 }) };
            LenPrefix(k, region.b())
        }
        8 => {
            let k = small_prefix(r);
            let mut inner = gen_closed(r, GenOpt { need_reusable: true, size: o.size / 2, ..o1 });
            if inner.min_size() == 0 || !inner.reusable() {
                inner = Num(*r.pick(&NUMS));
            }
            CountPrefix(k, inner.b())
        }
        9 => {
            let n = r.range(1, 3);
            Switch((0..n).map(|_| gen_closed(r, GenOpt { need_reusable: false, ..o1 })).collect())
        }
        10 | 11 => {
            let n = r.range(2, 8) as usize;
            let mut v: Vec<_> = (0..n)
                .map(|_| gen_closed(r, GenOpt { size: o.size / n + 1, depth: if n > 3 { o1.depth.min(1) } else { o1.depth }, ..o1 }))
                .collect();
            if allow_eos && r.bool() {
                *v.last_mut().unwrap() = gen_region(r, o1);
            }
            Tuple(v)
        }
        12 => {
            let a = gen_closed(r, o1);
            let b = gen_any(r, o1, allow_eos);
            Chain(a.b(), b.b())
        }
        13 => {
            if o.need_reusable {
                return gen_any(r, o1, allow_eos);
            }
            let mut inner = gen_any(r, GenOpt { need_reusable: true, ..o1 }, false);
            if !inner.reusable() {
                inner = Num(*r.pick(&NUMS));
            }
            if allow_eos && r.chance(1, 4) {
                // One item that extends to the end of the stream. (Padding is left out: a repetition of something infinite
                // does not say that it is infinite, so that pre-encoding it never ends.)
                let inner = gen_region(r, o1);
                return CollectN(1, if inner.has_pad() { Rest } else { inner }.b());
            }
            CollectN(r.us(4), inner.b())
        }
        14 => {
            // A region of fixed length.
            let n = r.below(o.size as u64 + 1);
            let mut c = gen_region(r, o1);
            if o.decode_only && r.chance(1, 4) {
                c = gen_closed(r, o1);
            }
            let n = if c.eos_delimited() { n } else { c.min_size() };
            Length(n, c.b())
        }
        15 | 16 | 17 => wrap(r, o, |r, o| gen_any(r, o, allow_eos)),
        18 => {
            if o.decode_only && allow_eos && r.bool() {
                MaybeEos(gen_closed(r, o1).b())
            } else {
                wrap(r, o, |r, o| gen_any(r, o, allow_eos))
            }
        }
        _ => {
            if allow_eos {
                Collect(
                    {
                        let i = gen_closed(r, GenOpt { need_reusable: true, ..o1 });
                        if i.min_size() == 0 || !i.reusable() {
                            Num(U16le)
                        } else {
                            i
                        }
                    }
                    .b(),
                )
            } else {
                gen_any(r, o1, allow_eos)
            }
        }
    }
}

pub fn gen_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = match r.below(6) {
            0 if left >= 2 => *r.pick(&['é', 'ß', '\u{80}', '\u{7ff}']),
            1 if left >= 3 => *r.pick(&['あ', '\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}']),
            2 if left >= 4 => *r.pick(&['😀', '\u{10000}', '\u{10ffff}']),
            3 => '\0',
            _ => (b' ' + (r.below(95)) as u8) as char,
        };
        s.push(c);
    }
    s
}
pub fn gen_doc(r: &mut Rng, depth: u32) -> Doc {
    let k = r.us(9);
    Doc {
        a: r.edge() as u32,
        b: gen_text(r, k),
        c: (0..r.below(4)).map(|_| r.u64() as i16).collect(),
        d: *r.pick(&[None, Some(true), Some(false)]),
        m: (0..r.below(3)).map(|i| (gen_text(r, i as usize), r.byte())).collect::<BTreeMap<_, _>>(),
        n: if depth > 0 && r.chance(1, 3) { Some(Box::new(gen_doc(r, depth - 1))) } else { None },
    }
}
pub fn gen_bdoc(r: &mut Rng) -> BDoc {
    BDoc {
        a: r.edge() as u32,
        c: (0..r.below(4)).map(|_| r.u64() as i16).collect(),
        d: *r.pick(&[None, Some(true), Some(false)]),
        e: (r.byte(), r.edge() as i64),
        f: (0..r.below(3)).map(|i| r.bytes(i as usize)).collect(),
    }
}

/// A valid item of the shape for encoding. `size`: rough size of variable-length parts.
/// `None` if no item could be found (a length that the contents cannot have).
pub fn gen_value(s: &Shape, r: &mut Rng, size: usize) -> Option<Value> {
    Some(match s {
        Num(k) => {
            let x = r.edge() & k.max();
            k.from_wire(&k.to_wire(&Value::U(x)).unwrap())
        }
        Fixed(n) | OneShot(n) => Value::Bytes(r.bytes(*n)),
        Utf8N(n) => Value::Str(gen_text(r, *n)),
        Rest => {
            let n = r.us(size + 1);
            Value::Bytes(r.bytes(n))
        }
        Utf8 => {
            let n = r.us(size + 1);
            Value::Str(gen_text(r, n))
        }
        Pad(_) => Value::Unit,
        Line(_) => {
            let n = r.us(size.min(40) + 1);
            Value::Bytes(r.bytes(n).into_iter().map(|b| b.max(1)).collect())
        }
        Null => Value::Unit,
        Json => Value::Json(Box::new(gen_doc(r, 1))),
        Bin => Value::Bin(Box::new(gen_bdoc(r))),
        Length(n, a) => return gen_exact(a, r, *n),
        LenPrefix(k, a) => {
            for t in 0..8 {
                let v = gen_value(a, r, if t == 0 { size } else { size / (t + 1) })?;
                let l = crate::refm::encode(a, &v).ok()?.len() as u64;
                if l <= k.max() {
                    return Some(v);
                }
            }
            return None;
        }
        CountPrefix(_, a) => {
            let n = r.us(5);
            Value::List((0..n).map(|_| gen_value(a, r, size / 4)).collect::<Option<_>>()?)
        }
        Switch(v) => {
            let i = r.us(v.len());
            Value::Sum(i, Box::new(gen_value(&v[i], r, size)?))
        }
        Tuple(v) => Value::List(v.iter().map(|s| gen_value(s, r, size / v.len() + 1)).collect::<Option<_>>()?),
        Chain(a, b) => Value::List(vec![gen_value(a, r, size / 2)?, gen_value(b, r, size / 2)?]),
        Collect(a) => {
            let n = r.us(5);
            Value::List((0..n).map(|_| gen_value(a, r, size / 4)).collect::<Option<_>>()?)
        }
        CollectN(n, a) => Value::List((0..*n).map(|_| gen_value(a, r, size / 4)).collect::<Option<_>>()?),
        Omit(o, a) => Value::Opt(if *o { None } else { Some(Box::new(gen_value(a, r, size)?)) }),
        Map(a) => Value::Mapped(Box::new(gen_value(a, r, size)?)),
        TryMap(a) => {
            for _ in 0..20 {
                let v = gen_value(a, r, size)?;
                if refused(&v).is_none() {
                    return Some(Value::Mapped(Box::new(v)));
                }
            }
            return None;
        }
        MaxBytes(n, a) => {
            for t in 0..6 {
                let v = gen_value(a, r, size / (t + 1))?;
                if crate::refm::encode(a, &v).ok()?.len() as u64 <= *n {
                    return Some(v);
                }
            }
            return gen_exact(a, r, *n);
        }
        MapErr(a) | Slice(a) | Peek(a) | MaybeEos(a) | Boxed(a) => return gen_value(a, r, size),
    })
}

/// An item of exactly `n` bytes.
pub fn gen_exact(s: &Shape, r: &mut Rng, n: u64) -> Option<Value> {
    match s {
        Rest => Some(Value::Bytes(r.bytes(n as usize))),
        Utf8 => Some(Value::Str(gen_text(r, n as usize))),
        Pad(_) => Some(Value::Unit),
        Line(_) => Some(Value::Bytes(r.bytes(n.checked_sub(1)? as usize).into_iter().map(|b| b.max(1)).collect())),
        Map(a) => Some(Value::Mapped(Box::new(gen_exact(a, r, n)?))),
        MapErr(a) | Slice(a) | Peek(a) | MaybeEos(a) | Boxed(a) => gen_exact(a, r, n),
        MaxBytes(m, a) if n <= *m => gen_exact(a, r, n),
        Omit(false, a) => Some(Value::Opt(Some(Box::new(gen_exact(a, r, n)?)))),
        Chain(a, b) => {
            let v = gen_value(a, r, 8)?;
            let l = crate::refm::encode(a, &v).ok()?.len() as u64;
            Some(Value::List(vec![v, gen_exact(b, r, n.checked_sub(l)?)?]))
        }
        Tuple(t) => {
            let mut left = n;
            let mut v = vec![];
            for (i, c) in t.iter().enumerate() {
                if i + 1 == t.len() {
                    v.push(gen_exact(c, r, left)?);
                } else {
                    let x = gen_value(c, r, 4)?;
                    left = left.checked_sub(crate::refm::encode(c, &x).ok()?.len() as u64)?;
                    v.push(x);
                }
            }
            Some(Value::List(v))
        }
        Collect(a) => {
            let mut left = n;
            let mut v = vec![];
            while left > 0 && v.len() < 100_000 {
                let mut ok = false;
                for _ in 0..4 {
                    let x = gen_value(a, r, 2)?;
                    let l = crate::refm::encode(a, &x).ok()?.len() as u64;
                    if l <= left {
                        left -= l;
                        v.push(x);
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    return None;
                }
            }
            (left == 0).then_some(Value::List(v))
        }
        s => {
            for _ in 0..4 {
                let v = gen_value(s, r, n as usize)?;
                if crate::refm::encode(s, &v).ok()?.len() as u64 == n {
                    return Some(v);
                }
            }
            None
        }
    }
}
