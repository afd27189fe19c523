//! C17, C18 and stages over statically typed codecs (arities, other collections, `last`, ...).
use super::common::*;
use super::enc::buffer_sizes;
use bytecodec::bincode_codec::*;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::*;
use bytecodec::null::*;
use bytecodec::padding::*;
use bytecodec::slice::OwnedSlice;
use bytecodec::tuple::*;
use std::collections::*;

// ------------------------------------------------------------------------------------ drive helpers
/// Feeds `b` to the decoder in drawn segments; Ok(item, consumed) or the error kind.
pub fn feed<D: Decode + ?Sized>(d: &mut D, b: &[u8], r: &mut Rng, style: Style) -> Result<(D::Item, usize), Option<ErrorKind>> {
    let cuts = random_cuts(r, b.len());
    let n = cuts.len();
    let (mut pos, mut end) = (0, 0);
    for (i, k) in cuts.iter().enumerate() {
        end += k;
        let left = ByteCount::Finite((b.len() - end) as u64);
        let eos = match style {
            Style::Exact => Eos::with_remaining_bytes(left),
            Style::Never | Style::Infinite => Eos::new(false),
            _ => Eos::new(i + 1 == n),
        };
        if !d.is_idle() {
            pos += d.decode(&b[pos..end], eos).map_err(|e| Some(*e.kind()))?;
            assert!(pos <= end, "consumed beyond the buffer");
        }
        if d.is_idle() {
            return Ok((d.finish_decoding().map_err(|e| Some(*e.kind()))?, pos));
        }
        assert!(pos == end, "left bytes without being idle");
    }
    Err(None)
}
fn a_style(r: &mut Rng) -> Style {
    *r.pick(&[Style::Last, Style::Exact])
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Out,
    Counts,
    /// the output ends before the item
    Short,
}
/// Declares the output ended before everything was written.
fn cut_short<E: Encode>(c: &mut Ctx, name: &str, e: &mut E, want: &[u8], r: &mut Rng) {
    let space = r.us(want.len());
    let mut cuts = random_cuts(r, space);
    let style = r.below(3);
    if style == 2 || cuts.is_empty() {
        cuts.push(0);
    }
    let mut out = vec![];
    let n = cuts.len();
    for (i, &k) in cuts.iter().enumerate() {
        let left = (space - out.len() - k) as u64;
        let eos = if style == 1 { Eos::with_remaining_bytes(ByteCount::Finite(left)) } else { Eos::new(i + 1 == n) };
        let mut b = vec![0xcc; k];
        match kind(e.encode(&mut b, eos)) {
            Ok(m) if m == k && !e.is_idle() => out.extend_from_slice(&b),
            Err(ErrorKind::UnexpectedEos) if eos.is_reached() => {
                c.eval(Some(hash_of(&(name, want, &cuts, style))));
                return c.count("typed_short_outputs");
            }
            x => return c.fail(format!("{}: {:?} at {} of {} in a space of {}, {:?}", name, x, out.len(), want.len(), space, eos)),
        }
    }
    c.fail(format!("{}: {} bytes, but the end of the output after {} was not reported", name, want.len(), space))
}
/// Drains a started encoder.
fn drain<E: Encode>(c: &mut Ctx, name: &str, e: &mut E, want: &[u8], r: &mut Rng, mode: Mode, exact: Option<fn(&E) -> u64>) {
    if mode == Mode::Short && !want.is_empty() {
        return cut_short(c, name, e, want, r);
    }
    let sizes = buffer_sizes(r, want.len());
    let mut out = vec![];
    let mut claims = vec![];
    let mut i = 0;
    loop {
        let req = e.requiring_bytes();
        if let Some(f) = exact {
            if mode == Mode::Counts && req != ByteCount::Finite(f(e)) {
                return c.fail(format!("{}: requires {:?}, exactly {}", name, req, f(e)));
            }
        }
        if let ByteCount::Finite(n) = req {
            claims.push((out.len(), n));
        }
        if e.is_idle() {
            if mode == Mode::Counts && req != ByteCount::Finite(0) {
                c.fail(format!("{}: idle and requires {:?}", name, req));
            }
            break;
        }
        if req == ByteCount::Infinite && mode == Mode::Counts {
            return c.fail(format!("{}: claims to be infinite at {} of {}", name, out.len(), want.len()));
        }
        i += 1;
        if i > want.len() + 100 + 2 * sizes.len() {
            return c.fail(format!("{}: does not end, {} of {} bytes, sizes {:?}", name, out.len(), want.len(), sizes));
        }
        let k = if i > want.len() + 60 { 4096 } else { sizes[i % sizes.len()] };
        let mut b = vec![0xcc; k];
        match kind(e.encode(&mut b, Eos::new(false))) {
            Ok(n) if n > k => return c.fail(format!("{}: reported {} of {}", name, n, k)),
            Ok(n) => {
                out.extend_from_slice(&b[..n]);
                if mode == Mode::Out && n < k && !e.is_idle() {
                    return c.fail(format!("{}: left {} of {} unused without being idle, at {} of {}", name, k - n, k, out.len(), want.len()));
                }
            }
            Err(k) => return c.fail(format!("{}: failed with {:?} at {} of {}", name, k, out.len(), want.len())),
        }
    }
    c.count("typed_encoders");
    c.eval(Some(hash_of(&(name, want, &sizes))));
    match mode {
        Mode::Out | Mode::Short => {
            if out != want {
                c.fail(format!("{}: emitted {} instead of {}, sizes {:?}", name, brief(&out), brief(want), sizes));
            }
        }
        Mode::Counts => {
            for (at, n) in claims {
                if at as u64 + n != out.len() as u64 {
                    return c.fail(format!("{}: at {} claimed {} more bytes, {} were written", name, at, n, out.len()));
                }
            }
        }
    }
}
fn u16s(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn typed(c: &mut Ctx, mode: Mode) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let xs: Vec<u16> = (0..r.us(6)).map(|_| r.u64() as u16).collect();
    let x = r.u64() as u16;
    let n = r.us(30);
    let bs = r.bytes(n);
    let (tn, tm) = (r.us(9), r.us(9));
    let t = gen_text(r, tn);
    let t2 = gen_text(r, tm);
    macro_rules! go {
        ($name:expr, $e:expr, $item:expr, $want:expr) => {
            go!(@ $name, $e, $item, $want, None)
        };
        (S $name:expr, $e:expr, $item:expr, $want:expr) => {
            go!(@ $name, $e, $item, $want, Some(|e| e.exact_requiring_bytes()))
        };
        (@ $name:expr, $e:expr, $item:expr, $want:expr, $x:expr) => {{
            let mut e = $e;
            for _ in 0..if mode == Mode::Short { 1 } else { 1 + r.us(2) } {
                if !e.is_idle() || (mode == Mode::Counts && e.requiring_bytes() != ByteCount::Finite(0)) {
                    c.fail(format!("{}: fresh, idle {} requires {:?}", $name, e.is_idle(), e.requiring_bytes()));
                }
                match kind(e.start_encoding($item)) {
                    Ok(()) => drain(c, $name, &mut e, &$want, r, mode, $x),
                    Err(k) => c.fail(format!("{}: refused with {:?}", $name, k)),
                }
            }
        }};
    }
    // started through `with_item` or wrapped with a final item
    macro_rules! started {
        ($name:expr, $e:expr, $want:expr) => {{
            let mut e = $e;
            drain(c, $name, &mut e, &$want, r, mode, None);
        }};
    }
    match r.below(14) {
        0 => {
            let arr = [x as u8, 1, 2, (x >> 8) as u8];
            go!(S "BytesEncoder<[u8;4]>", BytesEncoder::<[u8; 4]>::new(), arr, arr);
            go!(S "BytesEncoder<[u8;0]>", BytesEncoder::<[u8; 0]>::new(), [], []);
            go!(S "BytesEncoder<&[u8]>", BytesEncoder::<&[u8]>::new(), &bs[..], bs);
            go!(S "BytesEncoder<Box<[u8]>>", BytesEncoder::<Box<[u8]>>::new(), bs.clone().into_boxed_slice(), bs);
        }
        1 => {
            let (a, b) = { let a = r.us(n + 1); (a, a + r.us(n + 1 - a)) };
            go!(S "BytesEncoder<OwnedSlice>", BytesEncoder::<OwnedSlice<Vec<u8>>>::new(), OwnedSlice::new(bs.clone(), a, b), bs[a..b].to_vec());
            go!(S "Utf8Encoder<&str>", Utf8Encoder::<&str>::new(), &t[..], t.as_bytes());
            go!(S "Utf8Encoder<Box<str>>", Utf8Encoder::<Box<str>>::new(), t.clone().into_boxed_str(), t.as_bytes());
        }
        2 => {
            let mut want = vec![];
            want.extend(u16s(&xs));
            go!("U16be.repeat(vec)", U16beEncoder::new().repeat::<std::vec::IntoIter<u16>>(), xs.clone().into_iter(), want);
            go!("U16be.repeat(filter)", U16beEncoder::new().repeat(), Box::new(xs.clone().into_iter().filter(|_| true)) as Box<dyn Iterator<Item = u16>>, want);
            go!("U8.repeat(range)", U8Encoder::new().repeat::<std::ops::Range<u8>>(), 3..9, vec![3, 4, 5, 6, 7, 8]);
            let z = xs.len();
            go!("Null.repeat", NullEncoder.repeat(), std::iter::repeat(()).take(z), vec![0u8; 0]);
        }
        3 => {
            // elements of any size, empty ones included
            let parts: Vec<Vec<u8>> = (0..r.us(7)).map(|_| { let k = r.us(4); r.bytes(k) }).collect();
            let want = parts.concat();
            go!("Bytes.repeat", BytesEncoder::<Vec<u8>>::new().repeat(), parts.clone().into_iter(), want);
            let opts: Vec<Option<Vec<u8>>> = parts.iter().map(|p| r.bool().then(|| p.clone())).collect();
            let want2: Vec<u8> = opts.iter().flatten().flatten().copied().collect();
            go!("Bytes.optional.repeat", BytesEncoder::<Vec<u8>>::new().optional().repeat(), opts.clone().into_iter(), want2);
            go!("Bytes.repeat.repeat", BytesEncoder::<Vec<u8>>::new().repeat::<std::vec::IntoIter<Vec<u8>>>().repeat(),
                vec![parts.clone().into_iter(), vec![].into_iter(), parts.clone().into_iter()].into_iter(), [want.clone(), want.clone()].concat());
            go!("Bytes.repeat.chain(U8)", BytesEncoder::<Vec<u8>>::new().repeat().chain(U8Encoder::new()), (parts.clone().into_iter(), 9), [want.clone(), vec![9]].concat());
            go!(S "Bytes.repeat.pre_encode", BytesEncoder::<Vec<u8>>::new().repeat().pre_encode(), parts.clone().into_iter(), want);
        }
        4 => {
            started!("U16be.last", U16beEncoder::new().last(x), u16s(&[x]));
            started!("Bytes.last", BytesEncoder::new().last(bs.clone()), bs);
            started!("Null.last", NullEncoder.last(()), []);
            started!("Utf8.last.last-like", Utf8Encoder::new().chain(U8Encoder::new()).last((t.clone(), 3)), [t.as_bytes(), &[3]].concat());
        }
        5 => {
            // a busy encoder wrapped with a final item
            let mut e = BytesEncoder::new();
            e.start_encoding(bs.clone()).unwrap();
            let mut pre = vec![0; r.us(n + 1)];
            let k = e.encode(&mut pre, Eos::new(false)).unwrap();
            started!("busy Bytes.last", e.last(t.clone().into_bytes()), [&bs[k..], t.as_bytes()].concat());
            let mut e = U16beEncoder::new().repeat();
            e.start_encoding(xs.clone().into_iter()).unwrap();
            started!("busy U16be.repeat.last", e.last(vec![x].into_iter()), u16s(&[&xs[..], &[x]].concat()));
            started!("Bytes.repeat.last", BytesEncoder::<Vec<u8>>::new().repeat().last(vec![vec![], bs.clone(), vec![]].into_iter()), bs);
            let mut e = BytesEncoder::new();
            e.start_encoding(vec![]).unwrap();
            started!("busy empty Bytes.last(empty)", e.last(Vec::<u8>::new()), []);
        }
        6 => {
            started!("U16be::with_item", U16beEncoder::with_item(x).unwrap(), u16s(&[x]));
            started!("Bytes::with_item", BytesEncoder::with_item(bs.clone()).unwrap(), bs);
            started!("Utf8::with_item", Utf8Encoder::with_item(t.clone()).unwrap(), t.as_bytes());
            started!("Json::with_item", JsonEncoder::with_item(&t).unwrap(), serde_json::to_vec(&t).unwrap());
            started!("Tuple::with_item", TupleEncoder::<(U8Encoder, Utf8Encoder)>::with_item((1, t.clone())).unwrap(), [&[1], t.as_bytes()].concat());
            started!("PreEncode::with_item", PreEncode::<Repeat<U16beEncoder, std::vec::IntoIter<u16>>>::with_item(xs.clone().into_iter()).unwrap(), u16s(&xs));
            started!("Slice-less Optional::with_item", Optional::<U16beEncoder>::with_item(Some(x)).unwrap(), u16s(&[x]));
        }
        7 => {
            let d = gen_doc(r, 2);
            let j = serde_json::to_vec(&d).unwrap();
            go!("JsonEncoder", JsonEncoder::new(), d.clone(), j);
            go!(S "Json.pre_encode", JsonEncoder::new().pre_encode(), d.clone(), j);
            go!("Json.chain(Json)", JsonEncoder::new().chain(JsonEncoder::new()), (d.clone(), 5u8), [j.clone(), b"5".to_vec()].concat());
            go!(S "Json.length", JsonEncoder::new().length(j.len() as u64), d.clone(), j);
            let b = gen_bdoc(r);
            let w = bincode::serialize(&b).unwrap();
            go!("BincodeEncoder", BincodeEncoder::new(), b.clone(), w);
            go!("Bincode.repeat", BincodeEncoder::new().repeat(), vec![b.clone(), b.clone()].into_iter(), [w.clone(), w.clone()].concat());
        }
        8 => {
            go!(S "pair", U8Encoder::new().chain(U16beEncoder::new()), (7, x), [&[7], &u16s(&[x])[..]].concat());
            go!(S "optional pair", U8Encoder::new().chain(U16beEncoder::new()).optional(), Some((7, x)), [&[7], &u16s(&[x])[..]].concat());
            go!(S "absent", U16beEncoder::new().optional(), None, []);
            go!(S "length of pair", U8Encoder::new().chain(U16beEncoder::new()).length(3), (7, x), [&[7], &u16s(&[x])[..]].concat());
            go!(S "length of optional", U16beEncoder::new().optional().length(0), None, []);
            go!(S "null", NullEncoder, (), []);
            go!(S "nulls", NullEncoder.chain(NullEncoder).length(0), ((), ()), []);
        }
        9 => {
            // all arities, with parts of different kinds
            let e = || Utf8Encoder::<String>::new();
            let w: Vec<u8> = [&[1u8][..], &u16s(&[x]), t.as_bytes(), &bs, t2.as_bytes()].concat();
            go!(S "t3", TupleEncoder::new((U8Encoder::new(), U16beEncoder::new(), e())), (1, x, t.clone()), w[..3 + t.len()]);
            go!(S "t4", TupleEncoder::new((U8Encoder::new(), U16beEncoder::new(), e(), BytesEncoder::new())), (1, x, t.clone(), bs.clone()), w[..3 + t.len() + n]);
            go!(S "t5", TupleEncoder::new((U8Encoder::new(), U16beEncoder::new(), e(), BytesEncoder::new(), e())), (1, x, t.clone(), bs.clone(), t2.clone()), w);
            go!(S "t6", TupleEncoder::new((U8Encoder::new(), U16beEncoder::new(), e(), BytesEncoder::new(), e(), NullEncoder)), (1, x, t.clone(), bs.clone(), t2.clone(), ()), w);
            go!(S "t7", TupleEncoder::new((NullEncoder, U8Encoder::new(), U16beEncoder::new(), e(), BytesEncoder::new(), e(), NullEncoder)), ((), 1, x, t.clone(), bs.clone(), t2.clone(), ()), w);
            let w8 = [&w[..], &[5, 6, 7]].concat();
            go!(S "t8", TupleEncoder::new((U8Encoder::new(), U16beEncoder::new(), e(), BytesEncoder::new(), e(), U8Encoder::new(), U8Encoder::new(), U8Encoder::new())),
                (1, x, t.clone(), bs.clone(), t2.clone(), 5, 6, 7), w8);
        }
        10 => {
            go!(S "mapped", U16beEncoder::new().map_from(|s: String| s.len() as u16), t.clone(), (t.len() as u16).to_be_bytes());
            go!(S "try_mapped", U16beEncoder::new().try_map_from(|s: String| -> bytecodec::Result<u16> { Ok(s.len() as u16) }), t.clone(), (t.len() as u16).to_be_bytes());
            go!(S "map_err", U16beEncoder::new().map_err(|e: Error| e), x, u16s(&[x]));
            go!(S "max_bytes", BytesEncoder::new().max_bytes(n as u64), bs.clone(), bs);
            let mut sl = BytesEncoder::<Vec<u8>>::new().slice();
            sl.set_consumable_bytes(u64::MAX);
            go!(S "slice", sl, bs.clone(), bs);
        }
        11 => {
            let big = *r.pick(&[1023usize, 1024, 1025, 2047, 2048, 2049, 5000]);
            let b = r.bytes(big);
            go!(S "big pre_encode", BytesEncoder::<Vec<u8>>::new().pre_encode(), b.clone(), b);
            go!(S "big repeat pre_encode", U8Encoder::new().repeat().pre_encode(), b.clone().into_iter(), b);
            let s = "x".repeat(big);
            let j = serde_json::to_vec(&s).unwrap();
            go!("big json", JsonEncoder::new(), s.clone(), j);
            go!(S "big json pre_encode", JsonEncoder::new().pre_encode(), s.clone(), j);
            started!("big last", U8Encoder::new().repeat().last(b.clone().into_iter()), b);
        }
        12 => {
            // padding inside of a region
            let total = n + r.us(5);
            let want = [&bs[..], &vec![x as u8; total - n]].concat();
            go!(S "padded region", BytesEncoder::new().chain(PaddingEncoder::new()).length(total as u64), (bs.clone(), x as u8), want);
            go!(S "padded regions", BytesEncoder::new().chain(PaddingEncoder::new()).length(total as u64).chain(U8Encoder::new()), ((bs.clone(), x as u8), 1), [&want[..], &[1]].concat());
            go!("padded regions repeated", BytesEncoder::new().chain(PaddingEncoder::new()).length(total as u64).repeat(),
                vec![(bs.clone(), x as u8), (bs.clone(), x as u8)].into_iter(), [&want[..], &want].concat());
        }
        _ => {
            go!(S "boxed", Box::new(U16beEncoder::new()), x, u16s(&[x]));
            let mut inner = BytesEncoder::<Vec<u8>>::new();
            go!(S "borrowed", &mut inner, bs.clone(), bs);
            let dynamic: Box<dyn SizedEncode<Item = u16>> = Box::new(U16beEncoder::new());
            go!(S "dynamic", dynamic, x, u16s(&[x]));
        }
    }
}
pub fn c02_typed(c: &mut Ctx) {
    typed(c, Mode::Out)
}
pub fn c08_typed(c: &mut Ctx) {
    typed(c, Mode::Short)
}
pub fn c07_typed(c: &mut Ctx) {
    typed(c, Mode::Counts)
}

// ---------------------------------------------------------------------------------------------- C12
pub fn c12_typed(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let (k1, k2) = (1 + r.us(5), r.us(5));
    let (b1, b2) = (r.bytes(k1), r.bytes(k2));
    macro_rules! busy {
        ($name:expr, $e:expr, $a:expr, $wa:expr, $b:expr, $wb:expr) => {{
            let mut e = $e;
            let (wa, wb): (Vec<u8>, Vec<u8>) = ($wa, $wb);
            let mut out = vec![];
            if let Err(k) = kind(e.start_encoding($a)) {
                c.fail(format!("{}: idle, but refused with {:?}", $name, k));
            }
            let mut guard = 0;
            while !e.is_idle() && guard < 200 {
                guard += 1;
                if r.bool() {
                    match kind(e.start_encoding($b)) {
                        Err(ErrorKind::EncoderFull) => c.count("busy_refusals"),
                        x => c.fail(format!("{}: busy at {}, offered another item: {:?}", $name, out.len(), x)),
                    }
                }
                let mut buf = vec![0; if guard > 50 { 9 } else { r.us(3) }];
                match kind(e.encode(&mut buf, Eos::new(false))) {
                    Ok(n) => out.extend_from_slice(&buf[..n]),
                    Err(k) => c.fail(format!("{}: {:?}", $name, k)),
                }
                if !c.fails.is_empty() {
                    return;
                }
            }
            if out != wa {
                c.fail(format!("{}: emitted {:?} instead of {:?}", $name, out, wa));
            }
            c.eval(Some(hash_of(&($name, &out, guard))));
            match kind(e.start_encoding($b)) {
                Ok(()) => {
                    let mut buf = vec![0; 64];
                    let mut m = 0;
                    for _ in 0..9 {
                        m += e.encode(&mut buf[m..], Eos::new(false)).unwrap_or(0);
                    }
                    if buf[..m] != wb[..] || !e.is_idle() {
                        c.fail(format!("{}: second item gave {:?} instead of {:?}", $name, &buf[..m], wb));
                    }
                }
                Err(k) => c.fail(format!("{}: second item refused with {:?}", $name, k)),
            }
        }};
    }
    let js = |b: &[u8]| serde_json::to_vec(b).unwrap();
    let bi = |b: &Vec<u8>| bincode::serialize(b).unwrap();
    let vecs = |b: &[u8]| b.to_vec().into_iter();
    match r.below(4) {
        0 => {
            busy!("bytes", BytesEncoder::new(), b1.clone(), b1.clone(), b2.clone(), b2.clone());
            busy!("bytes arr", BytesEncoder::new(), [1u8, 2], vec![1, 2], [3u8, 4], vec![3, 4]);
            busy!("u32", U32leEncoder::new(), 1, vec![1, 0, 0, 0], 2, vec![2, 0, 0, 0]);
            busy!("utf8", Utf8Encoder::<String>::new(), "abc".into(), b"abc".to_vec(), "d".into(), b"d".to_vec());
            busy!("json", JsonEncoder::new(), b1.clone(), js(&b1), b2.clone(), js(&b2));
            busy!("bincode", BincodeEncoder::new(), b1.clone(), bi(&b1), b2.clone(), bi(&b2));
        }
        1 => {
            busy!("repeat", U8Encoder::new().repeat(), vecs(&b1), b1.clone(), vecs(&b2), b2.clone());
            busy!("repeat bytes", BytesEncoder::new().repeat(), vec![vec![], b1.clone()].into_iter(), b1.clone(), vec![b2.clone(), vec![]].into_iter(), b2.clone());
            busy!("repeat nothing", BytesEncoder::new().repeat(), vec![vec![0u8; 0]; 3].into_iter(), vec![], vec![b2.clone()].into_iter(), b2.clone());
            busy!("pre_encode", U8Encoder::new().repeat().pre_encode(), vecs(&b1), b1.clone(), vecs(&b2), b2.clone());
            busy!("pre_encode json", JsonEncoder::new().pre_encode(), b1.clone(), js(&b1), b2.clone(), js(&b2));
            busy!("length", BytesEncoder::new().length(2), vec![1, 2], vec![1, 2], vec![3, 4], vec![3, 4]);
            busy!("max_bytes", BytesEncoder::new().max_bytes(9), b1.clone(), b1.clone(), b2.clone(), b2.clone());
        }
        2 => {
            busy!("pair", U8Encoder::new().chain(BytesEncoder::new()), (1, b1.clone()), [&[1], &b1[..]].concat(), (2, b2.clone()), [&[2], &b2[..]].concat());
            // busy only in a later part
            busy!("empty pair", BytesEncoder::new().chain(BytesEncoder::new()), (vec![], b1.clone()), b1.clone(), (b2.clone(), vec![]), b2.clone());
            busy!("null pair", NullEncoder.chain(U16beEncoder::new()), ((), 5), vec![0, 5], ((), 6), vec![0, 6]);
            busy!("absent pair", U8Encoder::new().optional().chain(U16beEncoder::new()), (None, 5), vec![0, 5], (Some(1), 6), vec![1, 0, 6]);
            busy!(
                "t8",
                TupleEncoder::new((NullEncoder, U8Encoder::new(), NullEncoder, BytesEncoder::new(), U8Encoder::new(), NullEncoder, U8Encoder::new(), BytesEncoder::new())),
                ((), 1, (), b1.clone(), 2, (), 3, b2.clone()),
                [&[1], &b1[..], &[2, 3], &b2].concat(),
                ((), 4, (), b2.clone(), 5, (), 6, b1.clone()),
                [&[4], &b2[..], &[5, 6], &b1].concat()
            );
            busy!("optional", BytesEncoder::new().optional(), Some(b1.clone()), b1.clone(), Some(b2.clone()), b2.clone());
        }
        _ => {
            // the exceptions: absent items and null are taken at any time, and change nothing
            let mut e = BytesEncoder::new().optional();
            e.start_encoding(Some(b1.clone())).unwrap();
            let mut out = vec![];
            let mut guard = 0;
            while !e.is_idle() && guard < 50 {
                guard += 1;
                match kind(e.start_encoding(None)) {
                    Ok(()) | Err(ErrorKind::EncoderFull) => c.count("absent_offers"),
                    x => c.fail(format!("an absent item gave {:?}", x)),
                }
                let mut b = [0; 2];
                let k = e.encode(&mut b[..1 + r.us(2)], Eos::new(false)).unwrap_or(0);
                out.extend_from_slice(&b[..k]);
            }
            if out != b1 {
                c.fail(format!("absent items disturbed the encoding: {:?} instead of {:?}", out, b1));
            }
            let mut e = NullEncoder;
            for _ in 0..3 {
                if e.start_encoding(()).is_err() || !e.is_idle() {
                    c.fail("the null encoder refused an item");
                }
            }
            let mut e = PaddingEncoder::new();
            e.start_encoding(5).unwrap();
            let mut b = [0; 3];
            let _ = e.encode(&mut b, Eos::new(false));
            match kind(e.start_encoding(6)) {
                Err(ErrorKind::EncoderFull) => c.count("busy_refusals"),
                x => c.fail(format!("padding: {:?}", x)),
            }
            let n = e.encode(&mut b, Eos::new(true)).unwrap_or(99);
            if n != 3 || b != [5; 3] || e.start_encoding(6).is_err() {
                c.fail(format!("padding after a refusal: {} {:?}", n, b));
            }
            c.eval(Some(hash_of(&(&out, guard))));
        }
    }
}

// ---------------------------------------------------------------------------------------------- C03
pub fn c03_typed(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let n = 1 + r.us(4);
    macro_rules! pair {
        ($name:expr, $e:expr, $d:expr, $gen:expr, $back:expr) => {{
            let mut e = $e;
            let mut d = $d;
            let items: Vec<_> = (0..n).map(|_| $gen).collect();
            let mut stream = vec![];
            let mut ends = vec![];
            for x in &items {
                if let Err(k) = kind(e.start_encoding(x.clone())) {
                    c.fail(format!("{}: refused {:?}: {:?}", $name, x, k));
                    return;
                }
                let mut i = 0;
                while !e.is_idle() && i < 5000 {
                    i += 1;
                    let mut b = vec![0; r.us(6)];
                    match kind(e.encode(&mut b, Eos::new(false))) {
                        Ok(k) => stream.extend_from_slice(&b[..k]),
                        Err(k) => c.fail(format!("{}: {:?}", $name, k)),
                    }
                }
                ends.push(stream.len());
            }
            let mut pos = 0;
            for (x, end) in items.iter().zip(&ends) {
                match feed(&mut d, &stream[pos..], r, Style::Never) {
                    Ok((y, k)) if y == $back(x.clone()) && pos + k == *end => pos += k,
                    y => return c.fail(format!("{}: {:?} at {} came back as {:?}, expected the end at {}", $name, x, pos, y, end)),
                }
                c.count("round_trips");
            }
            c.eval((!stream.is_empty()).then(|| hash_of(&($name, &stream))));
        }};
    }
    let id = |x| x;
    let _ = id(0);
    match r.below(6) {
        0 => {
            pair!("bytes arr", BytesEncoder::<[u8; 5]>::new(), CopyableBytesDecoder::new([0u8; 5]), [r.byte(), r.byte(), 1, 2, 3], |x| x);
            pair!("empty arr", BytesEncoder::<[u8; 0]>::new(), CopyableBytesDecoder::new([0u8; 0]), [0u8; 0], |x| x);
            pair!("i24-ish", I32beEncoder::new().chain(F32leEncoder::new()), I32beDecoder::new().chain(F32leDecoder::new()), (r.u64() as i32, (r.u64() as u32 & 0x7f7f_ffff) as f32), |x| x);
        }
        1 => {
            pair!(
                "length prefixed",
                U16beEncoder::new().chain(Utf8Encoder::<String>::new()).map_from(|s: String| (s.len() as u16, s)),
                U16beDecoder::new().and_then(|n| Utf8Decoder::new().length(n as u64)),
                { let k = r.us(20); gen_text(r, k) },
                |x| x
            );
            pair!(
                "json prefixed",
                U32leEncoder::new().chain(JsonEncoder::<Doc>::new().pre_encode()).map_from(|d: Doc| (serde_json::to_vec(&d).unwrap().len() as u32, d)),
                U32leDecoder::new().and_then(|n| JsonDecoder::<Doc>::new().length(n as u64)),
                gen_doc(r, 1),
                |x| x
            );
            pair!(
                "bincode prefixed",
                U32leEncoder::new().chain(BincodeEncoder::<BDoc>::new().pre_encode()).map_from(|d: BDoc| (bincode::serialize(&d).unwrap().len() as u32, d)),
                U32leDecoder::new().and_then(|n| BincodeDecoder::<BDoc>::new().length(n as u64)),
                gen_bdoc(r),
                |x| x
            );
        }
        2 => {
            pair!(
                "counted",
                U8Encoder::new().chain(U24beEncoder::new().repeat()).map_from(|v: Vec<u32>| (v.len() as u8, v.into_iter())),
                U8Decoder::new().and_then(|n| U24beDecoder::new().collectn::<Vec<u32>>(n as usize)),
                (0..r.us(6)).map(|_| r.below(1 << 24) as u32).collect::<Vec<u32>>(),
                |x| x
            );
            pair!(
                "counted strings",
                U8Encoder::new()
                    .chain(U8Encoder::new().chain(Utf8Encoder::<String>::new()).map_from(|s: String| (s.len() as u8, s)).repeat())
                    .map_from(|v: Vec<String>| (v.len() as u8, v.into_iter())),
                U8Decoder::new().and_then(|n| U8Decoder::new().and_then(|n| Utf8Decoder::new().length(n as u64)).collectn::<Vec<String>>(n as usize)),
                (0..r.us(4)).map(|_| { let k = r.us(5); gen_text(r, k) }).collect::<Vec<_>>(),
                |x| x
            );
        }
        3 => {
            pair!(
                "flagged optional",
                U8Encoder::new().chain(U16leEncoder::new().optional()).map_from(|o: Option<u16>| (o.is_some() as u8, o)),
                U8Decoder::new().and_then(|f| U16leDecoder::new().omit(f == 0)),
                r.bool().then(|| r.u64() as u16),
                |x| x
            );
            pair!(
                "padded record",
                Utf8Encoder::<String>::new().chain(PaddingEncoder::new()).length(12).map_from(|s: String| (s, b' ')),
                Utf8Decoder::new().map(|s| s.trim_end_matches(' ').to_string()).length(12),
                { let k = r.us(12); "x".repeat(k) },
                |x| x
            );
            pair!("tuple8",
                TupleEncoder::new((U8Encoder::new(), I8Encoder::new(), U16beEncoder::new(), I16leEncoder::new(), U24leEncoder::new(), U40beEncoder::new(), U56leEncoder::new(), F64leEncoder::new())),
                TupleDecoder::new((U8Decoder::new(), I8Decoder::new(), U16beDecoder::new(), I16leDecoder::new(), U24leDecoder::new(), U40beDecoder::new(), U56leDecoder::new(), F64leDecoder::new())),
                (r.byte(), r.byte() as i8, r.u64() as u16, r.u64() as i16, r.below(1 << 24) as u32, r.below(1 << 40), r.below(1 << 56), r.u64() as f64),
                |x| x
            );
        }
        4 => {
            pair!("owned slice", BytesEncoder::<OwnedSlice<Vec<u8>>>::new(), CopyableBytesDecoder::new([0u8; 3]), { let v = r.bytes(7); let a = r.us(5); OwnedSlice::new(v, a, a + 3) }, |x: OwnedSlice<Vec<u8>>| <[u8; 3]>::try_from(x.as_ref()).unwrap());
            pair!("limited", U32beEncoder::new().max_bytes(4), U32beDecoder::new().length(4), r.u64() as u32, |x| x);
            pair!("peeked", U32beEncoder::new().pre_encode(), U32beDecoder::new().peekable(), r.u64() as u32, |x| x);
        }
        _ => {
            pair!("unlimited slice", { let mut s = U32beEncoder::new().slice(); s.set_consumable_bytes(1 << 40); s }, { let mut s = U32beDecoder::new().slice(); s.set_consumable_bytes(1 << 40); s }, r.u64() as u32, |x| x);
            pair!("boxed", Box::new(U32beEncoder::new()), Box::new(U32beDecoder::new()), r.u64() as u32, |x| x);
            pair!("maybe eos", U32beEncoder::new(), U32beDecoder::new().maybe_eos(), r.u64() as u32, |x| x);
        }
    }
}

// ---------------------------------------------------------------------------------------------- C21
pub fn c21_typed(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    macro_rules! reuse {
        ($name:expr, $mk:expr, $gen:expr) => {{
            let mut old = $mk;
            let mut before = 0;
            for _ in 0..5 {
                let mut fresh = $mk;
                let b: Vec<u8> = $gen;
                let st = a_style(r);
                let mut ra = r.clone();
                let x = feed(&mut old, &b, &mut ra, st);
                let y = feed(&mut fresh, &b, r, st);
                if x != y {
                    return c.fail(format!("{}: after {} items, {} gave {:?} to the reused decoder and {:?} to a fresh one", $name, before, brief(&b), x, y));
                }
                c.eval((before > 0).then(|| hash_of(&($name, &b, before))));
                match y {
                    Ok(_) => c.count("items_compared"),
                    Err(Some(ErrorKind::InvalidInput)) if old.requiring_bytes() == fresh.requiring_bytes() && old.is_idle() == fresh.is_idle() => c.count("refusals_compared"),
                    Err(_) => break,
                }
                before += 1;
            }
        }};
    }
    let k = r.us(6);
    match r.below(5) {
        0 => {
            reuse!("utf8", Utf8Decoder::new(), { let k = r.us(5); let mut b = r.bytes(k); if r.bool() { b.iter_mut().for_each(|x| *x &= 0x7f) } b });
            reuse!("utf8 of 3", Utf8Decoder::with_bytes_decoder(CopyableBytesDecoder::new([0u8; 3]).map(|b| b.to_vec())), { let mut b = r.bytes(3); if r.bool() { b.iter_mut().for_each(|x| *x &= 0x7f) } b });
        }
        1 => {
            reuse!("collect set", U8Decoder::new().collect::<BTreeSet<u8>>(), { let k = r.us(6); r.bytes(k) });
            reuse!("collect map", U8Decoder::new().chain(U8Decoder::new()).collect::<BTreeMap<u8, u8>>(), { let k = 2 * r.us(4); r.bytes(k) });
            reuse!("collect deque", U16beDecoder::new().collect::<VecDeque<u16>>(), { let k = 2 * r.us(4); r.bytes(k) });
        }
        2 => {
            reuse!("max_bytes", RemainingBytesDecoder::new().max_bytes(6), r.bytes(k));
            reuse!("max_bytes u16", U16beDecoder::new().max_bytes(3), r.bytes(2));
            reuse!("max_bytes length", Utf8Decoder::new().length(3).max_bytes(3), { let mut b = r.bytes(3); if r.bool() { b.iter_mut().for_each(|x| *x &= 0x7f) } b });
        }
        3 => {
            reuse!("tuple of refusers", Utf8Decoder::new().length(2).chain(U8Decoder::new().try_map(|x| if x % 3 == 0 { Err(Error::from(ErrorKind::InvalidInput)) } else { Ok(x) })).chain(Utf8Decoder::new().length(1)), {
                let mut b = r.bytes(4);
                for x in b.iter_mut() {
                    if r.chance(3, 4) {
                        *x &= 0x7f
                    }
                }
                b
            });
            reuse!("t5 of refusers", {
                let u = || U8Decoder::new().try_map(|x| if x % 5 == 0 { Err(Error::from(ErrorKind::InvalidInput)) } else { Ok(x) });
                TupleDecoder::new((u(), u(), u(), u(), u()))
            }, r.bytes(5));
        }
        _ => {
            // collectn set up again
            let mut d = U8Decoder::new().collectn::<Vec<u8>>(2);
            for i in 0..4 {
                let n = if i == 0 { 2 } else { r.us(5) };
                if i > 0 {
                    if d.remaining_items() != 0 {
                        c.fail(format!("collectn: {} remaining items after the last", d.remaining_items()));
                    }
                    d.set_remaining_items(n);
                }
                let b = r.bytes(n + 1);
                match feed(&mut d, &b, r, Style::Never) {
                    Ok((v, p)) if v == b[..n] && p == n => c.count("items_compared"),
                    x => return c.fail(format!("collectn({}) reused: {:?} from {:?}", n, x, b)),
                }
                c.eval((i > 0).then(|| hash_of(&b)));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C17
fn c17_model(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 10, 40, 200]);
    let s = dec_shape(&mut r, size);
    c17_on(c, &s, &mut r, size);
}
fn c17_cat(c: &mut Ctx) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..4 {
        c17_on(c, &s, &mut r, 10);
    }
}
fn c17_on(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    for _ in 0..3 {
        let b = some_stream(s, r, size, false);
        let max = max_items(s, r);
        let course = course_to_refusal(s, &b, max);
        if course.end == CourseEnd::Ill {
            continue;
        }
        for whole in [true, false] {
            let cuts = if whole { vec![b.len()] } else { random_cuts(r, b.len()) };
            let style = *r.pick(&styles_for(s));
            mon::reset(0);
            let mut d = mk::dec_bare(s);
            let mut r2 = r.clone();
            let seen = drive::decode(&mut d, &b, &cuts, style, &mut r2, DecOpt { max_items: max, stop_on_refusal: true, ..DecOpt::default() });
            c.eval((seen.consumed > 0).then(|| hash_of(&(s, &b, &cuts, style))));
            c.add("items", seen.items.len() as u64);
            if let Some(m) = judge(&course, &seen, style) {
                return c.fail(format!("{} [{:?} on {} cuts {} {:?}]", m, s, brief(&b), bdbg(&cuts), style));
            }
        }
    }
    c.sample(|| format!("{:?}", s));
}
/// Functions given to combinators: called once per completed item, with that item.
fn c17_calls(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let log: RefCell<Vec<u16>> = RefCell::new(vec![]);
    let log2: RefCell<Vec<u16>> = RefCell::new(vec![]);
    let n = r.us(5);
    let odd = r.us(2);
    let b = r.bytes(2 * n + odd);
    let refuse = r.below(3) as u16;
    let m = U16beDecoder::new().map(|x| {
        log.borrow_mut().push(x);
        x
    });
    let mut d = m.try_map(|x| -> bytecodec::Result<u32> {
        log2.borrow_mut().push(x);
        if x % 3 == refuse {
            return Err(ErrorKind::Other.into());
        }
        Ok(x as u32 * 2)
    });
    let want: Vec<u16> = b.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
    let mut got = vec![];
    let mut pos = 0;
    let mut end = 0;
    for k in random_cuts(r, b.len()) {
        end += k;
        loop {
            if r.chance(1, 4) && !d.is_idle() {
                // a premature finish calls nothing
                let _ = d.finish_decoding();
            }
            let was = d.is_idle();
            if !was {
                pos += d.decode(&b[pos..end], Eos::new(false)).unwrap_or(usize::MAX / 2);
            }
            if pos > end {
                return c.fail("decode failed");
            }
            if !d.is_idle() {
                break;
            }
            if log.borrow().len() != got.len() {
                c.fail("the function was called before finishing");
            }
            got.push(kind(d.finish_decoding()));
            if pos == end {
                break;
            }
        }
    }
    c.count("mapped_streams");
    c.eval((n > 0).then(|| hash_of(&b)));
    let exp: Vec<_> = want.iter().map(|x| if x % 3 == refuse { Err(ErrorKind::Other) } else { Ok(*x as u32 * 2) }).collect();
    if got != exp || *log.borrow() != want || *log2.borrow() != want {
        c.fail(format!("map/try_map on {:?}: got {:?}, calls {:?} and {:?}, expected {:?}", b, got, log.borrow(), log2.borrow(), want));
    }
    // and_then: the function decides from the first item, once per item
    let calls: RefCell<Vec<u8>> = RefCell::new(vec![]);
    let mut d = U8Decoder::new().and_then(|n| {
        calls.borrow_mut().push(n);
        RemainingBytesDecoder::new().length(n as u64 % 4)
    });
    let mut pos = 0;
    let mut heads = vec![];
    let k = 4 + r.us(12);
    let b = r.bytes(k);
    for _ in 0..4 {
        if pos >= b.len() {
            break;
        }
        let len = b[pos] as usize % 4;
        if pos + 1 + len > b.len() {
            break;
        }
        heads.push(b[pos]);
        match feed(&mut d, &b[pos..], r, Style::Never) {
            Ok((v, k)) if v == b[pos + 1..pos + 1 + len] && k == len + 1 => pos += k,
            x => return c.fail(format!("and_then on {:?} at {}: {:?}", b, pos, x)),
        }
    }
    if *calls.borrow() != heads {
        c.fail(format!("and_then was called with {:?} instead of {:?}", calls.borrow(), heads));
    }
    c.count("and_then_streams");
}
fn c17_typed(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    macro_rules! dec {
        ($name:expr, $d:expr, $b:expr, $want:expr, $n:expr) => {{
            let mut d = $d;
            let b: &[u8] = &$b;
            let st = a_style(r);
            let x = feed(&mut d, b, r, st);
            let want = $want;
            let ok = match &x {
                Ok((y, k)) => *y == want && *k == $n,
                _ => false,
            };
            c.eval((!b.is_empty()).then(|| hash_of(&($name, b))));
            c.count("typed_decoders");
            if !ok {
                c.fail(format!("{} on {:?}: {:?} instead of {:?} of {} bytes", $name, b, x, want, $n));
            }
        }};
    }
    let b = r.bytes(40);
    let be = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    match r.below(7) {
        0 => {
            let u = U8Decoder::new;
            let w = U16beDecoder::new;
            dec!("t2", TupleDecoder::new((u(), w())), b, (b[0], be(1)), 3);
            dec!("t3", TupleDecoder::new((w(), u(), w())), b, (be(0), b[2], be(3)), 5);
            dec!("t4", TupleDecoder::new((w(), u(), w(), u())), b, (be(0), b[2], be(3), b[5]), 6);
            dec!("t5", TupleDecoder::new((w(), u(), w(), u(), u())), b, (be(0), b[2], be(3), b[5], b[6]), 7);
            dec!("t6", TupleDecoder::new((w(), u(), w(), u(), u(), w())), b, (be(0), b[2], be(3), b[5], b[6], be(7)), 9);
            dec!("t7", TupleDecoder::new((w(), u(), w(), u(), u(), w(), u())), b, (be(0), b[2], be(3), b[5], b[6], be(7), b[9]), 10);
            dec!("t8", TupleDecoder::new((w(), u(), w(), u(), u(), w(), u(), w())), b, (be(0), b[2], be(3), b[5], b[6], be(7), b[9], be(10)), 12);
            dec!("chain", u().chain(w()).chain(u()), b, ((b[0], be(1)), b[3]), 4);
        }
        1 => {
            let n = r.us(9);
            let x = &b[..n];
            dec!("vec", U8Decoder::new().collect::<Vec<u8>>(), *x, x.to_vec(), n);
            dec!("deque", U8Decoder::new().collect::<VecDeque<u8>>(), *x, x.iter().copied().collect::<VecDeque<u8>>(), n);
            dec!("list", U8Decoder::new().collect::<LinkedList<u8>>(), *x, x.iter().copied().collect::<LinkedList<u8>>(), n);
            dec!("set", U8Decoder::new().collect::<HashSet<u8>>(), *x, x.iter().copied().collect::<HashSet<u8>>(), n);
            dec!("heap", U8Decoder::new().collect::<BTreeSet<u8>>(), *x, x.iter().copied().collect::<BTreeSet<u8>>(), n);
            let m = n / 2 * 2;
            dec!("map", U8Decoder::new().chain(U8Decoder::new()).collect::<BTreeMap<u8, u8>>(), b[..m], b[..m].chunks(2).map(|p| (p[0], p[1])).collect::<BTreeMap<u8, u8>>(), m);
            dec!("string", U8Decoder::new().map(|x| (x & 0x7f) as char).collect::<String>(), *x, x.iter().map(|x| (x & 0x7f) as char).collect::<String>(), n);
        }
        2 => {
            let n = r.us(9);
            dec!("n vec", U16beDecoder::new().collectn::<Vec<u16>>(n), b, (0..n).map(|i| be(2 * i)).collect::<Vec<u16>>(), 2 * n);
            dec!("n string", U8Decoder::new().map(|x| (x & 0x7f) as char).collectn::<String>(n), b, b[..n].iter().map(|x| (x & 0x7f) as char).collect::<String>(), n);
            dec!("n set", U8Decoder::new().collectn::<BTreeSet<u8>>(n), b, b[..n].iter().copied().collect::<BTreeSet<u8>>(), n);
            dec!("n nulls", NullDecoder.collectn::<Vec<()>>(n), b, vec![(); n], 0);
            dec!("n of n", U8Decoder::new().collectn::<Vec<u8>>(3).map(|v| v.len()).length(3), b, 3, 3);
            let mut d = U8Decoder::new().collectn::<Vec<u8>>(4);
            for i in 0..4 {
                if d.remaining_items() != 4 - i || d.is_idle() {
                    c.fail(format!("collectn: {} remaining after {}", d.remaining_items(), i));
                }
                if !matches!(kind(d.decode(&b[i..i + 1], Eos::new(false))), Ok(1)) {
                    c.fail("collectn: byte not consumed");
                }
            }
        }
        3 => {
            // omitting, switched back and forth
            let mut d = U16beDecoder::new().omit(r.bool());
            let mut pos = 0;
            let mut partial = 0;
            for _ in 0..12 {
                let o = r.bool();
                d.do_omit(o);
                if d.will_omit() != o {
                    c.fail("will_omit");
                }
                if o {
                    if !d.is_idle() || d.requiring_bytes() != ByteCount::Finite(0) {
                        c.fail(format!("omitting decoder: idle {} requires {:?}", d.is_idle(), d.requiring_bytes()));
                    }
                    let k = kind(d.decode(&b[pos..], Eos::new(r.bool())));
                    let f = kind(d.finish_decoding());
                    if k != Ok(0) || f != Ok(None) {
                        c.fail(format!("omitting decoder: decode {:?} finish {:?}", k, f));
                    }
                } else {
                    let take = 1 + r.us(2);
                    match kind(d.decode(&b[pos..pos + take], Eos::new(false))) {
                        Ok(k) => {
                            pos += k;
                            partial += k;
                        }
                        Err(e) => c.fail(format!("not omitting: {:?}", e)),
                    }
                    if partial >= 2 {
                        if partial > 2 {
                            c.fail(format!("consumed {} bytes for two", partial));
                        }
                        match kind(d.finish_decoding()) {
                            Ok(Some(x)) if x == be(pos - 2) => partial = 0,
                            x => return c.fail(format!("not omitting: {:?} at {}", x, pos)),
                        }
                    }
                }
            }
            c.eval(Some(hash_of(&(pos, &b))));
            c.count("omit_histories");
        }
        4 => {
            // peeking
            let mut d = U16beDecoder::new().map(|x| vec![x]).peekable();
            let mut pos = 0;
            for i in 0..6 {
                let mut guard = 0;
                while !d.is_idle() {
                    guard += 1;
                    if d.peek().is_some() || d.peek_mut().is_some() || guard > 20 {
                        return c.fail("an item can be peeked before it is complete");
                    }
                    let k = r.us(3);
                    pos += d.decode(&b[pos..pos + k], Eos::new(false)).unwrap_or(100);
                    if pos > b.len() {
                        return c.fail("peekable: decode failed");
                    }
                }
                let want = vec![be(2 * i)];
                if pos != 2 * i + 2 || d.peek() != Some(&want) || d.peek_mut() != Some(&mut want.clone()) || d.requiring_bytes() != ByteCount::Finite(0) {
                    return c.fail(format!("peeked {:?} instead of {:?} at {}", d.peek(), want, pos));
                }
                if !matches!(kind(d.decode(&b[pos..pos + 2], Eos::new(r.bool()))), Ok(0)) {
                    return c.fail("peekable: consumed bytes while holding an item");
                }
                let mut want = want;
                if r.bool() {
                    d.peek_mut().unwrap().push(7);
                    want.push(7);
                }
                match kind(d.finish_decoding()) {
                    Ok(x) if x == want => {}
                    x => return c.fail(format!("peekable finished with {:?} instead of {:?}", x, want)),
                }
                if d.peek().is_some() {
                    c.fail("peeked a finished item");
                }
            }
            c.eval(Some(hash_of(&b)));
            c.count("peeks");
        }
        5 => {
            // maybe_eos against the plain decoder, call for call
            let mk = || U24beDecoder::new().chain(U8Decoder::new().and_then(|n| Utf8Decoder::new().length(n as u64 % 3)));
            let mut p = mk();
            let mut m = mk().maybe_eos();
            let mut b = b.clone();
            b.iter_mut().for_each(|x| *x &= 0x7f);
            let mut pos = 0;
            let mut started = false;
            for _ in 0..30 {
                let k = r.us(4).min(b.len() - pos);
                let eos = Eos::new(r.chance(1, 5));
                let x = kind(m.decode(&b[pos..pos + k], eos));
                if k == 0 && eos.is_reached() && !started {
                    if x != Ok(0) || m.is_idle() {
                        c.fail(format!("maybe_eos at the start: {:?} idle {}", x, m.is_idle()));
                    }
                    match kind(m.finish_decoding()) {
                        Err(ErrorKind::IncompleteDecoding) => c.count("tolerated_ends"),
                        x => return c.fail(format!("maybe_eos before an item finished with {:?}", x)),
                    }
                    continue;
                }
                let y = kind(p.decode(&b[pos..pos + k], eos));
                if x != y || m.is_idle() != p.is_idle() || m.requiring_bytes() != p.requiring_bytes() {
                    return c.fail(format!("maybe_eos: {:?} plain: {:?} at {} of {:?} eos {:?}", x, y, pos, b, eos));
                }
                match y {
                    Ok(n) => {
                        pos += n;
                        started |= n > 0;
                    }
                    Err(_) => {
                        c.count("eos_errors_kept");
                        return;
                    }
                }
                if p.is_idle() {
                    let (x, y) = (kind(m.finish_decoding()), kind(p.finish_decoding()));
                    if x != y {
                        return c.fail(format!("maybe_eos finished with {:?}, plain with {:?}", x, y));
                    }
                    started = false;
                    c.count("maybe_eos_items");
                }
                c.eval((pos > 0).then(|| hash_of(&(&b, pos))));
            }
        }
        _ => {
            let t = |x: u8| if x % 2 == 0 { Some(x) } else { None };
            dec!("map option", U8Decoder::new().map(t), b, t(b[0]), 1);
            dec!("nested and_then", U8Decoder::new().and_then(|n| U8Decoder::new().and_then(move |m| U8Decoder::new().collectn::<Vec<u8>>((n % 3 + m % 3) as usize))), b,
                b[2..2 + (b[0] % 3 + b[1] % 3) as usize].to_vec(), 2 + (b[0] % 3 + b[1] % 3) as usize);
            dec!("omit in chain", U8Decoder::new().and_then(|n| U16beDecoder::new().omit(n % 2 == 0).chain(U8Decoder::new())), b,
                if b[0] % 2 == 0 { (None, b[1]) } else { (Some(be(1)), b[3]) }, if b[0] % 2 == 0 { 2 } else { 4 });
            dec!("collect of chains", U8Decoder::new().chain(U16beDecoder::new()).collect::<Vec<_>>().length(9), b,
                vec![(b[0], be(1)), (b[3], be(4)), (b[6], be(7))], 9);
            dec!("peek map", U16beDecoder::new().peekable().map(|x| x as u32 + 1), b, be(0) as u32 + 1, 2);
            dec!("map_err", U16beDecoder::new().map_err(|e: Error| e), b, be(0), 2);
        }
    }
}
/// Numbers of items that are changed on the way, and numbers that are never reached.
fn c17_counts(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let start = r.us(9);
    let mut d = U16beDecoder::new().collectn::<Vec<u16>>(start);
    let n = 2 * r.us(14) + r.us(2);
    let b = r.bytes(n);
    let mut left = start;
    let mut pos = 0;
    let mut got: Vec<u16> = vec![];
    let mut first = 0;
    let mut hist = vec![];
    for _ in 0..20 {
        if d.remaining_items() != left || d.is_idle() != (left == 0) {
            return c.fail(format!("collectn: {} remaining items instead of {}, idle {} [{:?} on {:?}]", d.remaining_items(), left, d.is_idle(), hist, b));
        }
        match r.below(5) {
            0 => {
                // the number of items still to be gathered; what has been gathered is kept
                left = if r.chance(1, 8) { (super::slices::huge(r) as usize).max(1 << 20) } else { r.us(6) };
                d.set_remaining_items(left);
                hist.push(('s', left));
                c.count("counts_changed");
            }
            1 => {
                hist.push(('f', got.len()));
                // a part of an item may be pending, if the number was lowered in the middle of it: nothing is said about what is next
                match kind(d.finish_decoding()) {
                    Ok(v) if left == 0 && v == got => c.count("counted_items"),
                    Err(ErrorKind::IncompleteDecoding) if left > 0 => continue,
                    x => return c.fail(format!("collectn: {:?} instead of {:?} with {} to go [{:?} on {:?}]", x, got, left, hist, b)),
                }
                if (pos - first) % 2 == 1 {
                    break;
                }
                got.clear();
                first = pos;
            }
            _ => {
                let k = r.us(b.len() - pos + 1);
                hist.push(('d', k));
                match kind(d.decode(&b[pos..pos + k], Eos::new(false))) {
                    Ok(x) => {
                        let half = (pos - first) % 2;
                        let want = k.min(if left == 0 { 0 } else { left.saturating_mul(2) - half });
                        if x != want {
                            return c.fail(format!("collectn: consumed {} of {} instead of {} [{:?} on {:?}]", x, k, want, hist, b));
                        }
                        let whole = (half + x) / 2;
                        pos += x;
                        left -= whole;
                        got = b[first..pos].chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
                    }
                    Err(k) => return c.fail(format!("collectn: {:?} [{:?} on {:?}]", k, hist, b)),
                }
            }
        }
    }
    c.eval((pos > 0).then(|| hash_of(&(&b, &hist))));
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        stages: vec![
            stage("catalogue", 1800, 60_000, c17_cat),
            stage("model", 15_000, 800_000, c17_model),
            stage("calls", 8000, 300_000, c17_calls),
            stage("typed", 16_000, 600_000, c17_typed),
            stage("counts", 20_000, 800_000, c17_counts),
            stage("macros", 10_000, 300_000, super::seqs::c17_macros),
            stage("maybe_eos", 10_000, 300_000, super::passthru::maybe_eos),
        ],
        rule: "drawn compositions of decoders against a sequential reference decoder written independently of the crate, plus typed compositions \
with recorded function calls; non-trivial: bytes were consumed; distinct by composition, bytes and schedule",
        must: &["items", "mapped_streams", "and_then_streams", "typed_decoders", "omit_histories", "peeks", "tolerated_ends", "eos_errors_kept", "maybe_eos_items", "counts_changed", "counted_items", "macro_calls", "macro_errors", "ends_withheld", "hints_passed"],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C18
fn c18_on(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    mon::reset(0);
    let mut e: mk::DynEnc = if s.sized() && r.bool() { Box::new(mk::senc_with(s, false)) } else { mk::enc_bare(s) };
    for i in 0..3 {
        let Some((v, want)) = enc_item(s, r, size) else { return };
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(format!("{:?} refused {}: {:?}", s, bdbg(&v), k));
        }
        let sizes = if i == 0 { vec![want.len() + 1] } else { buffer_sizes(r, want.len()) };
        let seen = drive::encode(&mut e, &sizes, OutStyle::Open, want.len());
        c.eval((!want.is_empty()).then(|| hash_of(&(s, &want, &sizes))));
        c.count("items");
        if seen.broken.is_some() || seen.end.is_err() || seen.out != want {
            return c.fail(format!("{:?} item {} gave {} ({:?} {:?}) instead of {}, sizes {:?}", s, bdbg(&v), brief(&seen.out), seen.broken, seen.end, brief(&want), sizes));
        }
    }
    c.sample(|| format!("{:?}", s));
}
fn c18_cat(c: &mut Ctx) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..4 {
        c18_on(c, &s, &mut r, 10);
    }
}
fn c18_model(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 10, 40, 200]);
    let s = enc_shape(&mut r, size);
    for _ in 0..3 {
        c18_on(c, &s, &mut r, size);
    }
}
fn c18_calls(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let log: RefCell<Vec<u16>> = RefCell::new(vec![]);
    let log2: RefCell<Vec<u16>> = RefCell::new(vec![]);
    let mut e = U16beEncoder::new()
        .map_from(|x: u16| {
            log.borrow_mut().push(x);
            x ^ 0xff
        })
        .try_map_from(|x: u16| -> bytecodec::Result<u16> {
            log2.borrow_mut().push(x);
            if x % 4 == 1 {
                return Err(ErrorKind::Other.into());
            }
            Ok(x + 1)
        });
    let (mut w1, mut w2, mut want, mut out) = (vec![], vec![], vec![], vec![]);
    for _ in 0..6 {
        let x = r.below(60_000) as u16;
        w2.push(x);
        let res = kind(e.start_encoding(x));
        if x % 4 == 1 {
            if res != Err(ErrorKind::Other) || !e.is_idle() {
                c.fail(format!("try_map_from refusing {}: {:?} idle {}", x, res, e.is_idle()));
            }
        } else {
            if res.is_err() {
                c.fail(format!("{} was refused: {:?}", x, res));
            }
            w1.push(x + 1);
            want.extend(((x + 1) ^ 0xff).to_be_bytes());
        }
        let mut guard = 0;
        while !e.is_idle() && guard < 20 {
            guard += 1;
            let mut b = vec![0; r.us(3)];
            let k = e.encode(&mut b, Eos::new(false)).unwrap_or(0);
            out.extend_from_slice(&b[..k]);
        }
    }
    c.eval(Some(hash_of(&want)));
    c.count("mapped_streams");
    if out != want || *log.borrow() != w1 || *log2.borrow() != w2 {
        c.fail(format!("map_from/try_map_from: emitted {:?} instead of {:?}; calls {:?}/{:?}, {:?}/{:?}", out, want, log.borrow(), w1, log2.borrow(), w2));
    }
    // repetition pulls every element exactly once, in order
    let pulled = RefCell::new(vec![]);
    let k = r.us(9);
    let els: Vec<u8> = r.bytes(k);
    let it = els.iter().map(|x| {
        pulled.borrow_mut().push(*x);
        vec![*x; *x as usize % 3]
    });
    let want: Vec<u8> = els.iter().flat_map(|x| vec![*x; *x as usize % 3]).collect();
    let mut e = BytesEncoder::new().repeat();
    e.start_encoding(it).unwrap();
    let mut out = vec![];
    let mut guard = 0;
    while !e.is_idle() && guard < 300 {
        guard += 1;
        let mut b = vec![0; r.us(4)];
        let k = e.encode(&mut b, Eos::new(false)).unwrap_or(0);
        out.extend_from_slice(&b[..k]);
    }
    if out != want || *pulled.borrow() != els {
        c.fail(format!("repeat of {:?}: emitted {:?}, pulled {:?}", els, out, pulled.borrow()));
    }
    c.count("repetitions");
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        stages: vec![
            stage("catalogue", 1800, 60_000, c18_cat),
            stage("model", 15_000, 800_000, c18_model),
            stage("calls", 8000, 300_000, c18_calls),
            stage("typed", 10_000, 400_000, c02_typed),
            stage("macros", 10_000, 300_000, super::seqs::c18_macros),
        ],
        rule: "drawn compositions of encoders and items against an independently written reference encoder, plus typed compositions with recorded \
function calls; non-trivial: bytes were emitted; distinct by composition, bytes and buffers",
        must: &["items", "mapped_streams", "repetitions", "typed_encoders", "macro_calls", "macro_errors"],
        level: "exploration",
        findings: vec![],
    }
}
