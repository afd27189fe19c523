//! Items of 1 to 20 MB, and long histories of one codec: what only size or age brings out.
use super::common::*;
use super::entry::Src;
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::padding::PaddingDecoder;
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq)]
enum Part {
    Enc,
    Dec,
    Entry,
    Round,
    Exact,
}
fn size(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => 1_000_000 + r.us(8_000_000),
        1 => (1 << (20 + r.us(4))) + r.us(3) - 1,
        _ => *r.pick(&[1 << 20, 1 << 21, 10_000_000, 16_777_215, 16_777_216, 16_777_217]),
    }
}
/// Segment or buffer sizes: a base size, now and then a little more or less, now and then tiny.
fn lens(r: &mut Rng, total: usize) -> impl FnMut() -> usize {
    let base = *r.pick(&[8192, 65_535, 65_536, 65_537, 1 << 20, total, total / 2 + 1, usize::MAX]);
    let mut r = Rng::new(r.u64());
    move || match r.below(8) {
        0 => r.us(40),
        1 => base.saturating_sub(r.us(20)).max(1),
        2 => base.saturating_add(r.us(20)),
        _ => base,
    }
}
/// Accepts a part of what it is offered.
struct Slow<'a>(Vec<u8>, &'a mut Rng);
impl std::io::Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = if self.1.chance(3, 4) { b.len() } else { b.len().min(1 + self.1.us(9000)) };
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn encode<E: Encode>(c: &mut Ctx, r: &mut Rng, name: &str, e: &mut E, bytes: &[u8], last: bool) -> bool {
    let mut next = lens(r, bytes.len());
    let mut pos = 0;
    let mut buf = vec![];
    let mut calls = 0u64;
    while !e.is_idle() {
        let n = next().min(bytes.len() - pos + 9);
        let eos = if last && n >= bytes.len() - pos && r.bool() { Eos::new(true) } else { Eos::new(false) };
        buf.clear();
        buf.resize(n, 0xA5);
        calls += 1;
        match kind(e.encode(&mut buf, eos)) {
            Ok(k) if k <= n && (k == n || e.is_idle()) && k <= bytes.len() - pos && buf[..k] == bytes[pos..pos + k] => pos += k,
            x => {
                c.fail(format!("{} of {} bytes: call at {} with {} bytes returned {:?}, idle {}, bytes as expected: false or misfit", name, bytes.len(), pos, n, x, e.is_idle()));
                return false;
            }
        }
        if calls > 4_000_000 {
            c.fail(format!("{} of {} bytes does not end", name, bytes.len()));
            return false;
        }
    }
    if pos != bytes.len() {
        c.fail(format!("{} of {} bytes: idle after {}", name, bytes.len(), pos));
        return false;
    }
    c.count("huge_encoded");
    true
}
/// Returns how much was consumed, or the failure.
fn decode<D: Decode>(r: &mut Rng, d: &mut D, b: &[u8]) -> Result<usize, String> {
    let mut next = lens(r, b.len());
    let mut pos = 0;
    while !d.is_idle() {
        let n = next().min(b.len() - pos);
        let end = pos + n == b.len();
        // the end either comes with the last bytes or is known from the start
        match kind(d.decode(&b[pos..pos + n], if r.bool() { Eos::with_remaining_bytes(ByteCount::Finite((b.len() - pos - n) as u64)) } else { Eos::new(end) })) {
            Ok(k) if k <= n && (k == n || d.is_idle()) => pos += k,
            x => return Err(format!("call at {} with {} bytes returned {:?}, idle {}", pos, n, x, d.is_idle())),
        }
        if end && !d.is_idle() {
            return Err("not complete at the end".into());
        }
    }
    Ok(pos)
}
#[allow(clippy::too_many_arguments)]
fn go<E: Encode, D: Decode>(c: &mut Ctx, r: &mut Rng, part: Part, name: &str, enc: &dyn Fn() -> E, dec: &dyn Fn() -> D, item: E::Item, want: D::Item, bytes: Vec<u8>, to_end: bool)
where
    E::Item: Clone,
    D::Item: PartialEq + Debug,
{
    let n = bytes.len();
    c.eval(Some(hash_of(&(name, n, hash_of(&bytes[..n.min(64)])))));
    c.max("max_huge_bytes", n as u64);
    let mut stream = bytes.clone();
    // a limit sees the bytes behind the item as well
    if !to_end && name != "limited" {
        let k = r.us(4);
        stream.extend(r.bytes(k));
    }
    match part {
        Part::Enc => {
            let mut e = enc();
            e.start_encoding(item).unwrap();
            encode(c, r, name, &mut e, &bytes, true);
        }
        Part::Dec => {
            let mut d = dec();
            match decode(r, &mut d, &stream) {
                Ok(k) if k == n => match kind(d.finish_decoding()) {
                    Ok(x) if x == want => c.count("huge_decoded"),
                    x => c.fail(format!("{} of {} bytes: item {}", name, n, bdbg(&x))),
                },
                x => c.fail(format!("{} of {} bytes: {:?}", name, n, x)),
            }
        }
        Part::Round => {
            let mut e = enc();
            let mut d = dec();
            // those whose decoders decode more than one item decode two
            let items = if matches!(name, "bytes" | "counted u8" | "tuple" | "limited") { 1 } else { 2 };
            let mut all = vec![];
            for _ in 0..items {
                e.start_encoding(item.clone()).unwrap();
                if !encode(c, r, name, &mut e, &bytes, false) {
                    return;
                }
                all.extend_from_slice(&bytes);
            }
            let mut pos = 0;
            for i in 0..items {
                match decode(r, &mut d, &all[pos..if to_end { pos + n } else { all.len() }]) {
                    Ok(k) if k == n => pos += k,
                    x => return c.fail(format!("{} of {} bytes, item {}: {:?}", name, n, i, x)),
                }
                match kind(d.finish_decoding()) {
                    Ok(x) if x == want => c.count("huge_decoded"),
                    x => return c.fail(format!("{} of {} bytes, item {}: {}", name, n, i, bdbg(&x))),
                }
            }
        }
        Part::Exact => {
            let mut src = Src::new(&stream, r);
            if src.mode % 2 == 1 {
                src.mode = 0;
            }
            let got = kind(dec().decode_exact(&mut src));
            match got {
                Ok(x) if x == want && src.pos == n => c.count("huge_decoded"),
                x => c.fail(format!("{} of {} bytes: decode_exact stopped at {} with {}", name, n, src.pos, bdbg(&x))),
            }
        }
        Part::Entry => {
            let fail = |c: &mut Ctx, how: &str, k: String| c.fail(format!("{} of {} bytes: {} gives {}", name, n, how, k));
            let show = |x: &Result<Vec<u8>, ErrorKind>| format!("{:?}", x.as_ref().map(|b| b.len()));
            let x = kind(enc().encode_into_bytes(item.clone()));
            if x.as_ref() != Ok(&bytes) {
                fail(c, "encode_into_bytes", show(&x));
            }
            let mut w = Slow(vec![], r);
            let mut e = enc();
            e.start_encoding(item.clone()).unwrap();
            let x = kind(e.encode_all(&mut w)).map(|_| w.0);
            if x.as_ref() != Ok(&bytes) {
                fail(c, "encode_all", show(&x));
            }
            let cap = *r.pick(&[4096usize, 65_536, 65_537, 3 << 20]);
            let mut wb = WriteBuf::new(vec![0; cap]);
            let mut e = enc();
            e.start_encoding(item.clone()).unwrap();
            let mut out = Slow(vec![], r);
            let mut res = Ok(());
            while res.is_ok() && !e.is_idle() {
                res = kind(e.encode_to_write_buf(&mut wb)).and_then(|_| kind(wb.flush(&mut out)));
            }
            while res.is_ok() && !wb.is_empty() {
                res = kind(wb.flush(&mut out));
            }
            let x = res.map(|_| out.0);
            if x.as_ref() != Ok(&bytes) {
                fail(c, "a write buffer", show(&x));
            }
            let mut p = enc().pre_encode();
            let x = kind(p.start_encoding(item)).and_then(|_| {
                let mut v = vec![];
                kind(p.encode_all(&mut v)).map(|_| v)
            });
            if x.as_ref() != Ok(&bytes) {
                fail(c, "pre-encoding", show(&x));
            }
            let x = kind(dec().decode_from_bytes(&bytes));
            if x.as_ref() != Ok(&want) {
                fail(c, "decode_from_bytes", bdbg(&x));
            }
            if !to_end {
                let mut more = bytes.clone();
                more.push(0);
                let x = kind(dec().decode_from_bytes(&more));
                if x != Err(ErrorKind::InvalidInput) {
                    fail(c, "decode_from_bytes with a byte too many", bdbg(&x));
                }
            }
            let mut src = Src::new(&bytes, r);
            if src.mode % 2 == 1 {
                src.mode = 0;
            }
            let mut rb = ReadBuf::new(vec![0; cap]);
            let mut d = dec();
            let mut res = Ok(());
            while res.is_ok() && !d.is_idle() {
                if !rb.stream_state().is_eos() {
                    res = kind(rb.fill(&mut src));
                }
                res = res.and_then(|_| kind(d.decode_from_read_buf(&mut rb)));
            }
            let x = res.and_then(|_| kind(d.finish_decoding()));
            if x.as_ref() != Ok(&want) || src.pos - rb.len() != n {
                fail(c, "a read buffer", bdbg(&x));
            }
            c.count("huge_entry_points");
        }
    }
}
fn run(c: &mut Ctx, part: Part) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let n = size(r);
    let fill = |r: &mut Rng, n: usize| {
        let seedling = r.bytes(4099);
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let k = seedling.len().min(n - v.len());
            v.extend_from_slice(&seedling[..k]);
            // no period
            let i = v.len() - 1;
            v[i] = v[i].wrapping_add((i >> 12) as u8);
        }
        v
    };
    let b = fill(r, n);
    let which = match part {
        // ends of its own only
        Part::Exact => *r.pick(&[0, 3, 5, 6, 7, 8, 10, 11]),
        _ => r.us(12),
    };
    let text = || {
        let mut s: String = "aé字𝄞".repeat(n / 10);
        s.push_str(&"z".repeat(n - s.len()));
        s
    };
    match which {
        0 => go(c, r, part, "bytes", &BytesEncoder::<Vec<u8>>::new, &|| BytesDecoder::new(vec![0; n]), b.clone(), b.clone(), b, false),
        1 => go(c, r, part, "remaining bytes", &BytesEncoder::<Vec<u8>>::new, &RemainingBytesDecoder::new, b.clone(), b.clone(), b, true),
        2 => {
            let s = text();
            go(c, r, part, "text", &Utf8Encoder::<String>::new, &|| Utf8Decoder::<RemainingBytesDecoder>::new(), s.clone(), s.clone(), s.into_bytes(), true)
        }
        3 => go(
            c, r, part, "length-delimited rest",
            &|| BytesEncoder::<Vec<u8>>::new().length(n as u64),
            &|| RemainingBytesDecoder::new().length(n as u64),
            b.clone(), b.clone(), b, false,
        ),
        4 => go(
            c, r, part, "collected u16",
            &|| U16beEncoder::new().repeat::<std::vec::IntoIter<u16>>(),
            &|| U16beDecoder::new().collect::<Vec<u16>>(),
            b.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<_>>().into_iter(),
            b.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<_>>(),
            b[..n / 2 * 2].to_vec(), true,
        ),
        5 => go(
            c, r, part, "counted u8",
            &|| U8Encoder::new().repeat::<std::vec::IntoIter<u8>>(),
            &|| U8Decoder::new().collectn::<Vec<u8>>(n),
            b.clone().into_iter(), b.clone(), b, false,
        ),
        6 => go(
            c, r, part, "limited",
            &|| BytesEncoder::<Vec<u8>>::new().max_bytes(n as u64),
            &|| BytesDecoder::new(vec![0; n]).max_bytes(n as u64),
            b.clone(), b.clone(), b, false,
        ),
        7 => {
            let mut bytes = (n as u32).to_be_bytes().to_vec();
            bytes.extend_from_slice(&b);
            go(
                c, r, part, "length-prefixed",
                &|| TupleEncoder::new((U32beEncoder::new(), BytesEncoder::<Vec<u8>>::new())),
                &|| U32beDecoder::new().and_then(|n| RemainingBytesDecoder::new().length(n as u64)),
                (n as u32, b.clone()), b, bytes, false,
            )
        }
        8 => {
            let mut bytes = b.clone();
            bytes.extend_from_slice(&[1, 2]);
            go(
                c, r, part, "tuple",
                &|| TupleEncoder::new((BytesEncoder::<Vec<u8>>::new(), U16beEncoder::new())),
                &|| TupleDecoder::new((BytesDecoder::new(vec![0; n]), U16beDecoder::new())),
                (b.clone(), 0x0102), (b, 0x0102), bytes, false,
            )
        }
        9 => {
            // documents are held as a whole: keep them smaller
            let s: String = text().chars().take(n / 10).collect();
            let bytes = serde_json::to_vec(&s).unwrap();
            go(c, r, part, "json", &JsonEncoder::<String>::new, &JsonDecoder::<String>::new, s.clone(), s, bytes, true)
        }
        10 => {
            let m = n.min(1 << 20);
            let v = b[..m].to_vec();
            let bytes = bincode::serialize(&v).unwrap();
            // a document of its own in its region
            let l = bytes.len() as u64;
            go(
                c, r, part, "bincode",
                &|| BincodeEncoder::<Vec<u8>>::new().length(l),
                &|| BincodeDecoder::<Vec<u8>>::new().length(l),
                v.clone(), v, bytes, false,
            )
        }
        _ => {
            let m = n as u64;
            let bytes = vec![7; n];
            go(
                c, r, part, "padding",
                &|| bytecodec::padding::PaddingEncoder::new().length(m),
                &|| PaddingDecoder::new(Some(7)).length(m),
                7, (), bytes, false,
            )
        }
    }
    c.sample(|| format!("kind {} of {} bytes", which, n));
}
pub fn enc(c: &mut Ctx) {
    run(c, Part::Enc)
}
pub fn dec(c: &mut Ctx) {
    run(c, Part::Dec)
}
pub fn entry(c: &mut Ctx) {
    run(c, Part::Entry)
}
pub fn round(c: &mut Ctx) {
    run(c, Part::Round)
}
pub fn exact(c: &mut Ctx) {
    run(c, Part::Exact)
}

/// One encoder and one decoder through more than 2^16 items.
pub fn aged(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, items) = loop {
        let s = super::enc::c03_shape(&mut r, 4);
        let items: Vec<_> = (0..3).filter_map(|_| enc_item(&s, &mut r, 4)).filter(|x| x.1.len() <= 24).collect();
        if items.len() == 3 && items.iter().any(|x| !x.1.is_empty()) {
            break (s, items);
        }
    };
    mon::reset(0);
    let mut e = mk::enc_bare(&s);
    let mut d = mk::dec_bare(&s);
    let mut buf = [0; 40];
    let rounds = 65_600 + r.us(8000);
    let split = r.us(4);
    let what = |i: usize, m: String| format!("item #{} of one encoder and decoder: {} [{:?}]", i, m, s);
    let start = std::time::Instant::now();
    for i in 0..rounds {
        let (v, b) = &items[i % 3];
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(what(i, format!("refused with {:?}", k)));
        }
        let cut = split.min(b.len());
        let x = kind(e.encode(&mut buf[..cut], Eos::new(false))).and_then(|n| kind(e.encode(&mut buf[n..], Eos::new(false))).map(|k| n + k));
        if x != Ok(b.len()) || buf[..b.len()] != b[..] || !e.is_idle() {
            return c.fail(what(i, format!("encoded as {:?} {} instead of {}", x, brief(&buf[..b.len()]), brief(b))));
        }
        let mut x = kind(d.decode(&b[..cut], Eos::new(false)));
        if let (Ok(n), false) = (x, d.is_idle()) {
            x = kind(d.decode(&b[n..], Eos::new(false))).map(|k| n + k);
        }
        let got = x.and_then(|n| kind(d.finish_decoding()).map(|v| (n, v)));
        if got.as_ref().map(|g| (g.0, &g.1)) != Ok((b.len(), v)) {
            return c.fail(what(i, format!("came back as {} instead of {}", bdbg(&got), bdbg(v))));
        }
        if i % 1024 == 0 && start.elapsed().as_secs() > 5 {
            c.count("aged_cut_short");
            break;
        }
        c.max("max_items_of_one_codec", i as u64 + 1);
    }
    c.count("aged_codecs");
    c.eval(Some(hash_of(&(&s, rounds, split, &items[0].1))));
    c.sample(|| format!("{:?} x {}", s, rounds));
}
