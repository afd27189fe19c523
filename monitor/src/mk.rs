//! Builds real codecs of the crate from shapes, with monitors around every node.
use crate::mon::{self, MonDec, MonEnc, Region};
use crate::refm::pad_byte;
use crate::shape::*;
use crate::value::*;
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::null::*;
use bytecodec::padding::*;
use bytecodec::tuple::*;
use bytecodec::*;
use trackable::error::ErrorKindExt;
use std::cell::Cell;
use std::rc::Rc;

pub type DynDec = Box<dyn Decode<Item = Value>>;
pub type DynEnc = Box<dyn Encode<Item = Value>>;
pub type DynSEnc = Box<dyn SizedEncode<Item = Value>>;

macro_rules! for_num {
    ($m:ident, $k:expr) => {
        match $k {
            NumKind::U8 => $m!(U, U8Decoder, U8Encoder, u8),
            NumKind::I8 => $m!(I, I8Decoder, I8Encoder, i8),
            NumKind::U16be => $m!(U, U16beDecoder, U16beEncoder, u16),
            NumKind::U16le => $m!(U, U16leDecoder, U16leEncoder, u16),
            NumKind::I16be => $m!(I, I16beDecoder, I16beEncoder, i16),
            NumKind::I16le => $m!(I, I16leDecoder, I16leEncoder, i16),
            NumKind::U24be => $m!(U, U24beDecoder, U24beEncoder, u32),
            NumKind::U24le => $m!(U, U24leDecoder, U24leEncoder, u32),
            NumKind::U32be => $m!(U, U32beDecoder, U32beEncoder, u32),
            NumKind::U32le => $m!(U, U32leDecoder, U32leEncoder, u32),
            NumKind::I32be => $m!(I, I32beDecoder, I32beEncoder, i32),
            NumKind::I32le => $m!(I, I32leDecoder, I32leEncoder, i32),
            NumKind::U40be => $m!(U, U40beDecoder, U40beEncoder, u64),
            NumKind::U40le => $m!(U, U40leDecoder, U40leEncoder, u64),
            NumKind::U48be => $m!(U, U48beDecoder, U48beEncoder, u64),
            NumKind::U48le => $m!(U, U48leDecoder, U48leEncoder, u64),
            NumKind::U56be => $m!(U, U56beDecoder, U56beEncoder, u64),
            NumKind::U56le => $m!(U, U56leDecoder, U56leEncoder, u64),
            NumKind::U64be => $m!(U, U64beDecoder, U64beEncoder, u64),
            NumKind::U64le => $m!(U, U64leDecoder, U64leEncoder, u64),
            NumKind::I64be => $m!(I, I64beDecoder, I64beEncoder, i64),
            NumKind::I64le => $m!(I, I64leDecoder, I64leEncoder, i64),
            NumKind::F32be => $m!(F, F32beDecoder, F32beEncoder, f32, u32),
            NumKind::F32le => $m!(F, F32leDecoder, F32leEncoder, f32, u32),
            NumKind::F64be => $m!(F, F64beDecoder, F64beEncoder, f64, u64),
            NumKind::F64le => $m!(F, F64leDecoder, F64leEncoder, f64, u64),
        }
    };
}

pub fn num_dec(k: NumKind) -> DynDec {
    macro_rules! d {
        (U, $d:ident, $e:ident, $t:ty) => {
            Box::new($d::new().map(|x| Value::U(x as u64)))
        };
        (I, $d:ident, $e:ident, $t:ty) => {
            Box::new($d::new().map(|x| Value::I(x as i64)))
        };
        (F, $d:ident, $e:ident, $t:ty, $b:ty) => {
            Box::new($d::new().map(|x: $t| Value::F(x.to_bits() as u64)))
        };
    }
    for_num!(d, k)
}
pub fn num_enc(k: NumKind) -> DynSEnc {
    macro_rules! e {
        (U, $d:ident, $e:ident, $t:ty) => {
            Box::new($e::new().try_map_from(|v: Value| -> Result<$t> {
                <$t>::try_from(v.u()).map_err(|_| Error::from(ErrorKind::InvalidInput.cause("out of range")))
            }))
        };
        (I, $d:ident, $e:ident, $t:ty) => {
            Box::new($e::new().map_from(|v: Value| match v {
                Value::I(i) => i as $t,
                _ => panic!("HARNESS"),
            }))
        };
        (F, $d:ident, $e:ident, $t:ty, $b:ty) => {
            Box::new($e::new().map_from(|v: Value| match v {
                Value::F(i) => <$t>::from_bits(i as $b),
                _ => panic!("HARNESS"),
            }))
        };
    }
    for_num!(e, k)
}
fn fixed_dec(n: usize) -> DynDec {
    macro_rules! m {
        ($($n:literal)*) => {
            match n {
                $($n => Box::new(CopyableBytesDecoder::new([0u8; $n]).map(|b| Value::Bytes(b.to_vec()))),)*
                _ => panic!("HARNESS: size {}", n),
            }
        };
    }
    m!(0 1 2 3 4 5 6 7 8 9 16 17 32 255 256 257 300 1023 1024 1025 2048 4096 4097 65537)
}

/// A codec as a user would define it: the bytes up to a zero byte.
#[derive(Default)]
pub struct LineDec {
    pub tight: bool,
    buf: Vec<u8>,
    done: bool,
}
impl LineDec {
    pub fn new(tight: bool) -> Self {
        LineDec { tight, ..Default::default() }
    }
}
impl Decode for LineDec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.done {
            return Ok(0);
        }
        match buf.iter().position(|&b| b == 0) {
            Some(i) => {
                self.buf.extend_from_slice(&buf[..i]);
                self.done = true;
                Ok(i + 1)
            }
            None => {
                self.buf.extend_from_slice(buf);
                if eos.is_reached() {
                    return Err(ErrorKind::UnexpectedEos.cause("unterminated").into());
                }
                Ok(buf.len())
            }
        }
    }
    fn finish_decoding(&mut self) -> Result<Self::Item> {
        if !self.done {
            return Err(ErrorKind::IncompleteDecoding.cause("unterminated").into());
        }
        self.done = false;
        Ok(std::mem::take(&mut self.buf))
    }
    fn requiring_bytes(&self) -> ByteCount {
        match (self.done, self.tight) {
            (true, _) => ByteCount::Finite(0),
            (false, true) => ByteCount::Finite(1),
            (false, false) => ByteCount::Unknown,
        }
    }
}
#[derive(Default)]
pub struct LineEnc {
    pub tight: bool,
    out: Vec<u8>,
    at: usize,
}
impl LineEnc {
    pub fn new(tight: bool) -> Self {
        LineEnc { tight, ..Default::default() }
    }
}
impl Encode for LineEnc {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let n = buf.len().min(self.out.len() - self.at);
        buf[..n].copy_from_slice(&self.out[self.at..self.at + n]);
        self.at += n;
        if self.at < self.out.len() && eos.is_reached() {
            return Err(ErrorKind::UnexpectedEos.cause("no room").into());
        }
        Ok(n)
    }
    fn start_encoding(&mut self, mut item: Vec<u8>) -> Result<()> {
        if self.at < self.out.len() {
            return Err(ErrorKind::EncoderFull.cause("busy").into());
        }
        item.push(0);
        self.out = item;
        self.at = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.out.len() - self.at {
            0 => ByteCount::Finite(0),
            n if self.tight => ByteCount::Finite(n as u64),
            _ => ByteCount::Unknown,
        }
    }
}

/// How the nodes are built.
#[derive(Clone)]
pub struct Opt {
    pub monitor: bool,
    pub region: Rc<Region>,
    pub next_id: Rc<Cell<u32>>,
}
impl Opt {
    pub fn new(monitor: bool) -> Self {
        Opt { monitor, region: Rc::new(Region::top()), next_id: Rc::new(Cell::new(0)) }
    }
    fn id(&self) -> u32 {
        let n = self.next_id.get();
        self.next_id.set(n + 1);
        n
    }
    fn sub(&self, r: Region) -> Opt {
        Opt { region: Rc::new(r), ..self.clone() }
    }
}

pub fn dec(s: &Shape) -> DynDec {
    dec_with(s, &Opt::new(true))
}
pub fn dec_bare(s: &Shape) -> DynDec {
    dec_with(s, &Opt::new(false))
}
pub fn dec_with(s: &Shape, o: &Opt) -> DynDec {
    let id = o.id();
    o.region.set_root(id);
    let inner = dec_node(s, o);
    if o.monitor {
        Box::new(MonDec::new(inner, s, id, o.region.clone()))
    } else {
        inner
    }
}
fn rc_fn(f: fn(Value) -> Value) -> fn(Value) -> Value {
    f
}
fn dec_node(s: &Shape, o: &Opt) -> DynDec {
    let sub = |a: &Shape| dec_with(a, o);
    match s {
        Shape::Num(k) => num_dec(*k),
        Shape::Fixed(n) => fixed_dec(*n),
        Shape::OneShot(n) => Box::new(BytesDecoder::new(vec![0; *n]).map(Value::Bytes)),
        Shape::Utf8N(n) => Box::new(Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; *n])).map(Value::Str)),
        Shape::Rest => Box::new(RemainingBytesDecoder::new().map(Value::Bytes)),
        Shape::Utf8 => Box::new(Utf8Decoder::new().map(Value::Str)),
        Shape::Pad(e) => Box::new(PaddingDecoder::new(*e).map(|()| Value::Unit)),
        Shape::Line(t) => Box::new(LineDec::new(*t).map(Value::Bytes)),
        Shape::Null => Box::new(NullDecoder.map(|()| Value::Unit)),
        Shape::Json => Box::new(JsonDecoder::<Doc>::new().map(|d| Value::Json(Box::new(d)))),
        Shape::Bin => Box::new(BincodeDecoder::<BDoc>::new().map(|d| Value::Bin(Box::new(d)))),
        Shape::Length(n, a) => Box::new(dec_with(a, &o.sub(Region::limited(*n))).length(*n)),
        Shape::LenPrefix(k, a) => {
            let (a, o1) = (a.clone(), o.clone());
            let f = move |v: Value| {
                let n = v.u();
                dec_with(&a, &o1.sub(Region::limited(n))).length(n)
            };
            Box::new(dec_with(&Shape::Num(*k), o).and_then(f))
        }
        Shape::CountPrefix(k, a) => {
            let (a, o1) = (a.clone(), o.clone());
            let f = move |v: Value| dec_with(&a, &o1).collectn::<Vec<Value>>(v.u() as usize);
            Box::new(dec_with(&Shape::Num(*k), o).and_then(f).map(Value::List))
        }
        Shape::Switch(c) => {
            let (c, o1) = (c.clone(), o.clone());
            let f = move |v: Value| {
                let i = v.u() as usize % c.len();
                dec_with(&c[i], &o1).map(move |v| Value::Sum(i, Box::new(v)))
            };
            Box::new(dec_with(&Shape::Num(NumKind::U8), o).and_then(f))
        }
        Shape::Tuple(c) => {
            let mut d = c.iter().map(sub);
            let mut n = || d.next().unwrap();
            macro_rules! t {
                ($($v:ident)*) => {{
                    $(let $v = n();)*
                    Box::new(TupleDecoder::new(($($v),*)).map(|($($v),*)| Value::List(vec![$($v),*])))
                }};
            }
            match c.len() {
                2 => t!(a b),
                3 => t!(a b c),
                4 => t!(a b c d),
                5 => t!(a b c d e),
                6 => t!(a b c d e f),
                7 => t!(a b c d e f g),
                8 => t!(a b c d e f g h),
                n => panic!("HARNESS: arity {}", n),
            }
        }
        Shape::Chain(a, b) => Box::new(sub(a).chain(sub(b)).map(|(a, b)| Value::List(vec![a, b]))),
        Shape::Collect(a) => Box::new(sub(a).collect::<Vec<Value>>().map(Value::List)),
        Shape::CollectN(n, a) => Box::new(sub(a).collectn::<Vec<Value>>(*n).map(Value::List)),
        Shape::Omit(b, a) => Box::new(sub(a).omit(*b).map(|v| Value::Opt(v.map(Box::new)))),
        Shape::Map(a) => Box::new(sub(a).map(rc_fn(|v| {
            mon::count_call("map");
            Value::Mapped(Box::new(v))
        }))),
        Shape::TryMap(a) => Box::new(sub(a).try_map(|v: Value| -> Result<Value> {
            mon::count_call("try_map");
            match refused(&v) {
                Some(k) => Err(Error::from(k.cause("refused"))),
                None => Ok(Value::Mapped(Box::new(v))),
            }
        })),
        Shape::MapErr(a) => Box::new(sub(a).map_err(mon::map_err)),
        Shape::MaxBytes(n, a) => Box::new(sub(a).max_bytes(*n)),
        Shape::Slice(a) => {
            let mut d = sub(a).slice();
            d.set_consumable_bytes(u64::MAX);
            Box::new(d)
        }
        Shape::Peek(a) => Box::new(sub(a).peekable()),
        Shape::MaybeEos(a) => Box::new(sub(a).maybe_eos()),
        Shape::Boxed(a) => Box::new(Box::new(Box::new(sub(a)))),
    }
}

pub fn enc(s: &Shape) -> DynEnc {
    enc_with(s, true)
}
pub fn enc_bare(s: &Shape) -> DynEnc {
    enc_with(s, false)
}
pub fn enc_with(s: &Shape, m: bool) -> DynEnc {
    let inner = enc_node(s, m);
    if m {
        Box::new(MonEnc::new(inner, None, s))
    } else {
        inner
    }
}
pub fn senc_with(s: &Shape, m: bool) -> DynSEnc {
    let inner = senc_node(s, m);
    if m {
        Box::new(MonEnc::new(inner, Some(|e: &DynSEnc| e.exact_requiring_bytes()), s))
    } else {
        inner
    }
}
macro_rules! tup {
    ($n:expr, $($v:ident)*) => {{
        $(let $v = $n();)*
        Box::new(TupleEncoder::new(($($v),*)).map_from(|v: Value| {
            let mut l = v.list().into_iter();
            $(let $v = l.next().unwrap();)*
            ($($v),*)
        }))
    }};
}

macro_rules! shared_enc {
    ($s:expr, $sub:ident, $m:expr, $($special:tt)*) => {
        match $s {
            $($special)*
            Shape::Num(k) => num_enc(*k),
            Shape::Null => Box::new(NullEncoder.map_from(|_: Value| ())),
            Shape::Fixed(_) | Shape::OneShot(_) | Shape::Rest => Box::new(BytesEncoder::<Vec<u8>>::new().map_from(Value::bytes)),
            Shape::Utf8 | Shape::Utf8N(_) => Box::new(Utf8Encoder::<String>::new().map_from(Value::str)),
            Shape::Length(n, a) => Box::new(enc_with(a, $m).length(*n)),
            Shape::LenPrefix(k, a) => {
                let a1 = a.clone();
                Box::new(TupleEncoder::new(($sub(&Shape::Num(*k), $m), $sub(a, $m))).map_from(move |v: Value| {
                    let n = crate::refm::encode(&a1, &v).expect("HARNESS: length").len();
                    (Value::U(n as u64), v)
                }))
            }
            Shape::Switch(c) => {
                let tail = Box::new(NullEncoder.map_from(|_: Value| ()));
                let mut tail = shared_enc!(@dy $sub tail);
                for (i, x) in c.iter().enumerate() {
                    let here = $sub(x, $m).optional();
                    tail = shared_enc!(@dy $sub Box::new(here.chain(tail).map_from(move |v: Value| {
                        let hit = matches!(&v, Value::Sum(j, _) if *j == i);
                        match v {
                            Value::Sum(_, x) if hit => (Some(*x), Value::Unit),
                            v => (None, v),
                        }
                    })));
                }
                Box::new(TupleEncoder::new(($sub(&Shape::Num(NumKind::U8), $m), tail)).map_from(|v: Value| match v {
                    Value::Sum(i, x) => (Value::U(i as u64), Value::Sum(i, x)),
                    _ => panic!("HARNESS"),
                }))
            }
            Shape::Tuple(c) => {
                let mut d = c.iter().map(|x| $sub(x, $m));
                let mut n = || d.next().unwrap();
                shared_enc!(@tuple c, n)
            }
            Shape::Chain(a, b) => Box::new($sub(a, $m).chain($sub(b, $m)).map_from(|v: Value| {
                let mut l = v.list().into_iter();
                (l.next().unwrap(), l.next().unwrap())
            })),
            Shape::Omit(_, a) => Box::new($sub(a, $m).optional().map_from(|v: Value| match v {
                Value::Opt(o) => o.map(|b| *b),
                _ => panic!("HARNESS"),
            })),
            Shape::Map(a) => Box::new($sub(a, $m).map_from(|v: Value| match v {
                Value::Mapped(b) => {
                    mon::count_call("map_from");
                    *b
                }
                _ => panic!("HARNESS"),
            })),
            Shape::TryMap(a) => Box::new($sub(a, $m).try_map_from(|v: Value| -> Result<Value> {
                mon::count_call("try_map_from");
                match v {
                    Value::Mapped(b) => match refused(&b) {
                        Some(k) => Err(Error::from(k.cause("refused"))),
                        None => Ok(*b),
                    },
                    _ => panic!("HARNESS"),
                }
            })),
            Shape::MapErr(a) => Box::new($sub(a, $m).map_err(mon::map_err)),
            Shape::MaxBytes(n, a) => Box::new($sub(a, $m).max_bytes(*n)),
            Shape::Slice(a) => {
                let mut d = $sub(a, $m).slice();
                d.set_consumable_bytes(u64::MAX);
                Box::new(d)
            }
            Shape::Peek(a) => Box::new(enc_with(a, $m).pre_encode()),
            Shape::MaybeEos(a) => $sub(a, $m),
            Shape::Boxed(a) => Box::new(Box::new(Box::new($sub(a, $m)))),
        }
    };
    (@dy enc_with $e:expr) => { $e as DynEnc };
    (@dy senc_with $e:expr) => { $e as DynSEnc };
    (@tuple $c:expr, $n:expr) => {
        match $c.len() {
            2 => tup!($n, a b),
            3 => tup!($n, a b c),
            4 => tup!($n, a b c d),
            5 => tup!($n, a b c d e),
            6 => tup!($n, a b c d e f),
            7 => tup!($n, a b c d e f g),
            8 => tup!($n, a b c d e f g h),
            n => panic!("HARNESS: arity {}", n),
        }
    };
}
fn enc_node(s: &Shape, m: bool) -> DynEnc {
    shared_enc! { s, enc_with, m,
        Shape::Pad(e) => {
            let b = pad_byte(*e);
            Box::new(PaddingEncoder::new().map_from(move |_: Value| b))
        }
        Shape::Line(t) => Box::new(LineEnc::new(*t).map_from(Value::bytes)),
        Shape::Json => Box::new(JsonEncoder::<Doc>::new().map_from(|v: Value| match v {
            Value::Json(d) => *d,
            _ => panic!("HARNESS"),
        })),
        Shape::Bin => Box::new(BincodeEncoder::<BDoc>::new().map_from(|v: Value| match v {
            Value::Bin(d) => *d,
            _ => panic!("HARNESS"),
        })),
        Shape::Collect(a) | Shape::CollectN(_, a) => {
            let e: Repeat<DynEnc, std::vec::IntoIter<Value>> = enc_with(a, m).repeat();
            Box::new(e.map_from(|v: Value| v.list().into_iter()))
        }
        Shape::CountPrefix(k, a) => {
            let e: Repeat<DynEnc, std::vec::IntoIter<Value>> = enc_with(a, m).repeat();
            Box::new(TupleEncoder::new((enc_with(&Shape::Num(*k), m), e)).map_from(|v: Value| {
                let l = v.list();
                (Value::U(l.len() as u64), l.into_iter())
            }))
        }
    }
}
fn senc_node(s: &Shape, m: bool) -> DynSEnc {
    shared_enc! { s, senc_with, m,
        Shape::Pad(_) | Shape::Json | Shape::Bin | Shape::Line(_) | Shape::Collect(_) | Shape::CollectN(..) | Shape::CountPrefix(..) => {
            panic!("HARNESS: not sized: {:?}", s)
        }
    }
}
#[allow(dead_code)]
fn unused(_: Omittable<DynDec>) {}
