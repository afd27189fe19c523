//! Shared generators of the property stages.
pub use crate::drive::{cuts_from_mask, judge, random_cuts, DecOpt, End, OutStyle, Style, STYLES};
pub(crate) use crate::{drive, mk, mon, refm};
pub use crate::refm::{bit, Course, CourseEnd, Res};
pub use crate::rng::{hash_bytes, hash_of, mix, Rng};
pub use crate::run::{Ctx, Prop, Stage};
pub use crate::shape::*;
pub use crate::value::*;
pub use crate::{bdbg, brief};
pub use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode};
pub use std::cell::{Cell, RefCell};
pub use std::rc::Rc;

pub const RULE: &str = "cases are drawn from the seed: codec composition x items/bytes x schedule; an execution is non-trivial if it \
moved at least one byte or item through the composition, and distinct by (composition, bytes, schedule)";

pub fn stage(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Stage {
    Stage { name, quick, thorough, f }
}
pub fn opt(size: usize, depth: usize) -> GenOpt {
    GenOpt { size, depth, decode_only: false, need_reusable: false, big: false }
}

/// Encodings of `n` random items back to back; `None` if the shape has no such items.
pub fn valid_stream(s: &Shape, r: &mut Rng, n: usize, size: usize) -> Option<(Vec<Value>, Vec<Vec<u8>>)> {
    let mut items = vec![];
    let mut encs = vec![];
    for _ in 0..n {
        let v = gen_value(s, r, size)?;
        let e = refm::encode(s, &v).ok()?;
        items.push(v);
        encs.push(e);
    }
    Some((items, encs))
}
/// Bytes for a decoder of the shape: valid, mutated, truncated, extended or arbitrary.
pub fn some_stream(s: &Shape, r: &mut Rng, size: usize, hostile: bool) -> Vec<u8> {
    let n = 1 + r.us(3);
    let mut b = match valid_stream(s, r, n, size) {
        Some((_, e)) => e.concat(),
        None => {
            let n = r.us(size + 1);
            let x = r.byte();
            if s.has_pad() && r.chance(2, 3) {
                // a padding byte that may fit
                let e = pad_of(s).unwrap_or(x);
                vec![e; n]
            } else {
                r.bytes(n)
            }
        }
    };
    let m = if hostile { 2 + r.below(9) } else { r.below(9) };
    match m {
        0..=3 => {}
        4 => {
            let k = r.us(b.len() + 1);
            b.truncate(k);
        }
        5 => {
            for _ in 0..1 + r.us(3) {
                if !b.is_empty() {
                    let i = r.us(b.len());
                    b[i] = if r.bool() { r.byte() } else { b[i] ^ (1 << r.us(8)) };
                }
            }
        }
        6 => {
            let k = 1 + r.us(4);
            b.extend(r.bytes(k));
        }
        7 => {
            let n = r.us(size.min(64) + 1);
            b = r.bytes(n);
        }
        8 => {
            // extreme length and count fields
            if !b.is_empty() {
                let i = r.us(b.len().min(12));
                let k = (1 + r.us(8)).min(b.len() - i);
                let v = *r.pick(&[0xffu8, 0x7f, 0x80, 0]);
                b[i..i + k].iter_mut().for_each(|x| *x = v);
            }
        }
        9 => {
            let k = r.us(3) + 1;
            let v = *r.pick(&[0xffu8, 0, 0x7f, 1]);
            let mut x = vec![v; k * 4];
            x.extend(&b);
            b = x;
        }
        _ => {
            if !b.is_empty() {
                let i = r.us(b.len());
                b.remove(i);
            }
        }
    }
    b
}
pub fn pad_of(s: &Shape) -> Option<u8> {
    match s {
        Shape::Pad(e) => *e,
        s => s.children().into_iter().find_map(pad_of),
    }
}
pub fn styles_for(s: &Shape) -> Vec<Style> {
    let mb = s.any(&|s| matches!(s, Shape::MaxBytes(..)));
    STYLES.iter().copied().filter(|&x| !(mb && x == Style::Infinite)).collect()
}

/// A shape for decoding with everything in it.
pub fn dec_shape(r: &mut Rng, size: usize) -> Shape {
    let depth = r.us(4);
    let need_reusable = r.chance(1, 3);
    let o = GenOpt { size, depth, decode_only: true, need_reusable, big: false };
    if r.chance(1, 4) {
        let x = gen_region(r, GenOpt { depth: depth.max(1), ..o });
        return x;
    }
    gen_any(r, o, true)
}
/// A shape whose items can be encoded.
pub fn enc_shape(r: &mut Rng, size: usize) -> Shape {
    let depth = r.us(4);
    gen_any(r, opt(size, depth), true)
}
pub fn enc_item(s: &Shape, r: &mut Rng, size: usize) -> Option<(Value, Vec<u8>)> {
    let v = gen_value(s, r, size)?;
    let e = refm::encode(s, &v).ok()?;
    Some((v, e))
}

/// One wrapper or composition of every kind over a few inner decoders: the systematic part.
pub fn catalogue() -> Vec<Shape> {
    use NumKind::*;
    use Shape::*;
    let mut v: Vec<Shape> = NUMS.iter().map(|k| Num(*k)).collect();
    for n in [0, 1, 2, 3, 5, 8] {
        v.push(Fixed(n));
        v.push(OneShot(n));
    }
    for n in [0, 1, 3, 4] {
        v.push(Utf8N(n));
    }
    let regions = || {
        vec![
            Rest,
            Utf8,
            Pad(None),
            Pad(Some(0)),
            Pad(Some(0xaa)),
            Json,
            Bin,
            Collect(Num(U8).b()),
            Collect(Num(U16le).b()),
            Collect(Num(U24be).b()),
            Collect(LenPrefix(U8, Rest.b()).b()),
            Tuple(vec![Num(U8), Rest]),
            Tuple(vec![Num(U16be), Utf8]),
            Chain(Num(U8).b(), Collect(Num(U8).b()).b()),
        ]
    };
    let closed = || {
        vec![
            Num(U8),
            Num(U16be),
            Num(U24le),
            Num(I32le),
            Num(F64be),
            Fixed(0),
            Fixed(3),
            OneShot(2),
            Utf8N(2),
            Line(false),
            Line(true),
            Null,
            LenPrefix(U8, Rest.b()),
            LenPrefix(U16be, Utf8.b()),
            LenPrefix(U8, Json.b()),
            LenPrefix(U8, Bin.b()),
            LenPrefix(U8, Num(U16le).b()),
            CountPrefix(U8, Num(U8).b()),
            CountPrefix(U8, LenPrefix(U8, Utf8.b()).b()),
            Length(0, Null.b()),
            Length(0, Rest.b()),
            Length(3, Rest.b()),
            Length(4, Utf8.b()),
            Length(2, Num(U16be).b()),
            Length(3, Num(U16be).b()),
            Length(1, Num(U16be).b()),
            Length(3, Collect(Num(U16be).b()).b()),
            Length(4, Collect(Num(U16be).b()).b()),
            Length(4, Tuple(vec![Num(U8), Rest]).b()),
            Switch(vec![Num(U8), LenPrefix(U8, Rest.b()), Null]),
            Tuple(vec![Num(U8), Num(U16le)]),
            Tuple(vec![Null, Num(U8), Fixed(0), Num(U8)]),
            Tuple(vec![Num(U8), Num(U8), Num(U8), Num(U8), Num(U8)]),
            Tuple(vec![Fixed(1), LenPrefix(U8, Utf8.b()), Num(U8), Null, Num(I8), Fixed(2)]),
            Tuple(vec![Num(U8), Null, Num(U8), Num(U8), Null, Num(U8), Num(U8)]),
            Tuple(vec![Num(U8), Num(U8), Num(U16be), Num(U8), Num(U8), Num(U8), Fixed(0), Num(U8)]),
            Chain(Num(U8).b(), Num(U8).b()),
            Tuple(vec![Line(false), Num(U16be), Line(false)]),
            Tuple(vec![Null, Line(false), Null]),
            Chain(Chain(Num(U8).b(), Null.b()).b(), Num(U16be).b()),
            CollectN(0, Num(U8).b()),
            CollectN(2, Num(U16be).b()),
            CollectN(3, Null.b()),
            CollectN(2, LenPrefix(U8, Rest.b()).b()),
            CollectN(1, Rest.b()),
            CollectN(1, Tuple(vec![Num(U8), Utf8]).b()),
            LenPrefix(U8, CollectN(1, Rest.b()).b()),
        ]
    };
    v.extend(regions());
    v.extend(closed());
    for a in regions().into_iter().chain(closed()) {
        v.push(Omit(false, a.clone().b()));
        v.push(Omit(true, a.clone().b()));
        v.push(Map(a.clone().b()));
        v.push(TryMap(a.clone().b()));
        v.push(MapErr(a.clone().b()));
        v.push(Slice(a.clone().b()));
        v.push(Peek(a.clone().b()));
        v.push(Boxed(a.clone().b()));
        v.push(MaxBytes(3, a.clone().b()));
        v.push(MaxBytes(7, a.clone().b()));
        v.push(LenPrefix(U8, a.clone().b()));
        v.push(Tuple(vec![Num(U8), a.clone()]));
        v.push(Switch(vec![a.clone()]));
        v.push(Length(4, a.clone().b()));
    }
    for a in closed() {
        if !a.eos_delimited() {
            v.push(MaybeEos(a.clone().b()));
            v.push(Tuple(vec![a.clone(), Num(U8)]));
            if a.reusable() {
                v.push(CollectN(2, a.clone().b()));
                if a.min_size() > 0 {
                    v.push(Collect(a.clone().b()));
                    v.push(CountPrefix(U8, a.clone().b()));
                }
            }
        }
    }
    v
}

/// Reference course, cut behind the first refused item.
pub fn course_to_refusal(s: &Shape, b: &[u8], max: usize) -> Course {
    let mut c = refm::course(s, b, max);
    if let Some(i) = c.items.iter().position(|x| x.0.is_err()) {
        c.items.truncate(i + 1);
        c.end = CourseEnd::Done;
    }
    c
}
pub fn max_items(s: &Shape, r: &mut Rng) -> usize {
    if s.reusable() {
        1 + r.us(4)
    } else {
        1
    }
}
pub fn rng_of(h: u64) -> Rng {
    Rng::new(h)
}
pub fn kind<T>(r: Result<T, Error>) -> Result<T, ErrorKind> {
    r.map_err(|e| *e.kind())
}
