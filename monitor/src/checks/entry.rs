//! C06, C25: the entry points for decoding from readers and bytes, and for encoding to writers and bytes.
use super::common::*;
use bytecodec::combinator::PreEncode;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use std::io::{self, Read, Write};

/// A reader that hands out short reads and counts.
pub struct Src<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub r: Rng,
    pub mode: u64,
    pub reads: u64,
    /// reads answered at the end of the data
    pub eofs: u64,
    /// the n-th read fails
    pub fail_at: Option<(u64, io::ErrorKind)>,
    pub failed: bool,
    pub max_req: usize,
}
impl<'a> Src<'a> {
    pub fn new(b: &'a [u8], r: &mut Rng) -> Self {
        let mode = r.below(4);
        Src { b, pos: 0, r: Rng::new(r.u64()), mode, reads: 0, eofs: 0, fail_at: None, failed: false, max_req: 0 }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        self.max_req = self.max_req.max(buf.len());
        if let Some((n, k)) = self.fail_at {
            if self.reads > n {
                self.failed = true;
                return Err(io::Error::new(k, "scripted"));
            }
        }
        let left = self.b.len() - self.pos;
        let mut k = buf.len().min(left);
        if k > 1 {
            k = match self.mode {
                0 => k,
                1 => 1,
                2 => 1 + self.r.us(k),
                _ => k.min(1 + self.r.us(3)),
            };
        }
        if k == 0 {
            self.eofs += 1;
            assert!(self.eofs < 5000, "decode_exact keeps reading at the end of the reader");
        }
        buf[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

const IO_KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
];

// ---------------------------------------------------------------------------------------------- C06
fn closed(c: &mut Ctx, r: &mut Rng) -> (Shape, usize) {
    let size = *r.pick(&[2usize, 8, 40, 200, 1100, 3000]);
    if c.stage == "catalogue" {
        let cat: Vec<Shape> = catalogue().into_iter().filter(|s| !s.eos_delimited()).collect();
        return (cat[c.idx as usize % cat.len()].clone(), 9);
    }
    let d = r.us(4);
    (gen_closed(r, GenOpt { decode_only: true, ..opt(size, d) }), size)
}
fn c06_exact(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, size) = closed(c, &mut r);
    for _ in 0..4 {
        let n = if s.reusable() { 1 + r.us(5) } else { 1 };
        let Some((items, encs)) = valid_stream(&s, &mut r, n, size) else { return };
        let mut b = encs.concat();
        let junk = r.us(4);
        b.extend(r.bytes(junk));
        mon::reset(mon::HINT | mon::PROTO);
        let mut d = mk::dec(&s);
        let mut src = Src::new(&b, &mut r);
        let mut end = 0;
        for (i, (v, e)) in items.iter().zip(&encs).enumerate() {
            // verdict of the item according to the reference (try_map may refuse decoded items)
            let want = match refm::decode(&s, e) {
                Res::Ok { n, item, .. } if n == e.len() => item,
                _ => {
                    c.count("outside_specification");
                    break;
                }
            };
            end += e.len();
            mon::with(|t| t.stream = None);
            if s.reusable() && r.chance(1, 5) {
                d = mk::dec(&s);
            }
            let what = || format!("{:?} item #{} {} of {}", s, i, bdbg(v), brief(&b));
            let got = kind(d.decode_exact(&mut src));
            let ok = match (&got, &want) {
                (Ok(a), Ok(w)) => a == w,
                (Err(k), Err(m)) => bit(*k) & m != 0,
                _ => false,
            };
            if !ok {
                return c.fail(format!("decode_exact returned {}, expected {} [{}]", bdbg(&got), bdbg(&want), what()));
            }
            c.eval((!e.is_empty()).then(|| hash_of(&(&s, &b, i, src.mode))));
            if got.is_err() && src.pos != end {
                break;
            }
            if src.pos != end {
                return c.fail(format!("decode_exact left the reader at {}, the item ends at {} [{}]", src.pos, end, what()));
            }
            c.count("items_decoded_exactly");
            c.add("bytes_read", e.len() as u64);
            if src.mode != 0 {
                c.count("items_from_short_reads");
            }
            c.max("max_item_bytes", e.len() as u64);
            if got.is_err() {
                break;
            }
        }
        c.drain(&|| format!("{:?} on {}", s, brief(&b)));
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?}", s));
}
/// Any stream (complete, cut off, mutated), any composition: outcome and end of reading.
fn c06_any(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[2usize, 8, 40, 300]);
    let s = if r.chance(1, 3) {
        let cat = catalogue();
        r.pick(&cat).clone()
    } else {
        dec_shape(&mut r, size)
    };
    for _ in 0..6 {
        let mut b = some_stream(&s, &mut r, size, false);
        if r.chance(1, 3) {
            let k = r.us(b.len() + 1);
            b.truncate(k);
        }
        let mut d = mk::dec_bare(&s);
        let mut src = Src::new(&b, &mut r);
        let got = kind(d.decode_exact(&mut src));
        let want = refm::decode(&s, &b);
        let what = || format!("{:?} on {}", s, brief(&b));
        c.eval((src.pos > 0).then(|| hash_of(&(&s, &b, src.mode))));
        match (&got, &want) {
            (_, Res::Ill) => {
                c.count("outside_specification");
                continue;
            }
            (Ok(v), Res::Ok { n, item: Ok(w), .. }) => {
                if v != w {
                    return c.fail(format!("decode_exact returned {}, expected {} [{}]", bdbg(v), bdbg(w), what()));
                }
                if src.pos != *n {
                    return c.fail(format!("decode_exact left the reader at {}, the item ends at {} [{}]", src.pos, n, what()));
                }
                c.count("items_decoded_exactly");
            }
            // contents shorter than a declared length may be noticed as unconsumed bytes
            (Err(k), Res::Ok { item: Err(m), .. }) if m & bit(*k) != 0 || (m & refm::INCOMPLETE != 0 && *k == ErrorKind::InconsistentState) => c.count("items_refused"),
            (Err(k), Res::Fail(m)) if (m | refm::EOS) & bit(*k) != 0 => {
                c.count(if src.eofs > 0 { "cut_off_reported" } else { "rejected" })
            }
            (Err(ErrorKind::UnexpectedEos), Res::Pending) => c.count("cut_off_reported"),
            _ => return c.fail(format!("decode_exact returned {}, expected {} [{}]", bdbg(&got), bdbg(&want), what())),
        }
    }
    c.sample(|| format!("{:?}", s));
}
/// A reader that fails: the error surfaces, no item appears.
fn c06_errors(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[2usize, 8, 40, 2000]);
    let s = dec_shape(&mut r, size);
    let Some((_, encs)) = valid_stream(&s, &mut r, 1, size) else { return };
    let b = &encs[0];
    let total = {
        let mut src = Src { mode: 3, ..Src::new(b, &mut r) };
        let _ = mk::dec_bare(&s).decode_exact(&mut src);
        src.reads
    };
    for _ in 0..6 {
        let mut src = Src { mode: 3, ..Src::new(b, &mut r) };
        let k = *r.pick(&IO_KINDS);
        src.fail_at = Some((r.below(total + 1), k));
        let got = kind(mk::dec_bare(&s).decode_exact(&mut src));
        if !src.failed {
            c.count("reader_not_asked_again");
            continue;
        }
        c.count("reader_errors");
        c.eval(Some(hash_of(&(&s, b, src.reads))));
        let want = if k == io::ErrorKind::UnexpectedEof { ErrorKind::UnexpectedEos } else { ErrorKind::Other };
        if got != Err(want) {
            return c.fail(format!("read #{} failed with {:?} and decode_exact returned {} [{:?} on {}]", src.reads, k, bdbg(&got), s, brief(b)));
        }
    }
}
fn c06_hints_ex(c: &mut Ctx) {
    super::dec::exhaustive(c, mon::HINT, false)
}
fn c06_hints_rand(c: &mut Ctx) {
    super::dec::random(c, mon::HINT, false)
}
/// Items around the size of the internal buffer of `decode_exact`.
fn c06_big(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = *r.pick(&[1022usize, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 5000, 70_000]);
    let s = match r.below(5) {
        0 => Shape::Fixed(*r.pick(&[1023usize, 1024, 1025, 2048, 4096, 4097, 65537])),
        1 => Shape::OneShot(*r.pick(&[1023usize, 1024, 1025, 2048, 4096])),
        2 => Shape::Length(n as u64, Shape::Rest.b()),
        3 => Shape::LenPrefix(NumKind::U32be, Shape::Utf8.b()),
        _ => Shape::Tuple(vec![Shape::Num(NumKind::U8), Shape::LenPrefix(NumKind::U24le, Shape::Rest.b()), Shape::Num(NumKind::U16be)]),
    };
    let k = if s.reusable() { 3 } else { 1 };
    let items: Vec<Vec<u8>> = (0..k)
        .map(|_| match &s {
            Shape::LenPrefix(..) => {
                let t = gen_text(&mut r, n);
                let mut v = (t.len() as u32).to_be_bytes().to_vec();
                v.extend(t.as_bytes());
                v
            }
            Shape::Tuple(_) => {
                let mut v = vec![r.byte()];
                v.extend(&(n as u32).to_le_bytes()[..3]);
                v.extend(r.bytes(n + 2));
                v
            }
            Shape::Fixed(n) | Shape::OneShot(n) => r.bytes(*n),
            _ => r.bytes(n),
        })
        .collect();
    let b = items.concat();
    let mut src = Src::new(&b, &mut r);
    mon::reset(mon::HINT);
    let mut d = mk::dec(&s);
    let mut end = 0;
    for e in &items {
        end += e.len();
        let got = kind(d.decode_exact(&mut src));
        let Res::Ok { item: Ok(w), .. } = refm::decode(&s, e) else { panic!("HARNESS: big item") };
        c.eval(Some(hash_of(&(&s, e.len(), src.mode, src.reads))));
        if got.as_ref() != Ok(&w) || src.pos != end {
            return c.fail(format!("decode_exact returned {} and left the reader at {}, the item ends at {} [{:?}]", bdbg(&got), src.pos, end, s));
        }
        c.count("items_decoded_exactly");
        c.max("max_item_bytes", e.len() as u64);
    }
    c.drain(&|| format!("{:?}", s));
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        stages: vec![
            stage("catalogue", 1500, 40_000, c06_exact),
            stage("exact", 15_000, 900_000, c06_exact),
            stage("any", 12_000, 600_000, c06_any),
            stage("errors", 6000, 200_000, c06_errors),
            stage("big", 500, 12_000, c06_big),
            stage("huge", 30, 1000, super::huge::exact),
            stage("hints", 800, 15_000, c06_hints_ex),
            stage("hints_random", 4000, 120_000, c06_hints_rand),
        ],
        rule: RULE,
        must: &["items_decoded_exactly", "items_from_short_reads", "cut_off_reported", "reader_errors", "hints_checked"],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C25
/// A writer that accepts short writes and is interrupted now and then.
struct Sink {
    out: Vec<u8>,
    r: Rng,
    mode: u64,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.mode == 3 && self.r.chance(1, 4) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = match self.mode {
            0 => b.len(),
            1 => 1,
            _ => 1 + self.r.us(b.len()),
        };
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
type Out = Result<Vec<u8>, ErrorKind>;

/// Encodes through a small write buffer that is flushed to a slow writer.
fn via_write_buf<E: Encode>(e: &mut E, r: &mut Rng, limit: usize) -> Out {
    let cap = *r.pick(&[1usize, 2, 3, 7, 64, 1024, 4096]);
    let mut wb = WriteBuf::new(vec![0; cap]);
    let mut w = Sink { out: vec![], mode: r.below(3), r: r.clone() };
    let mut guard = 0;
    while !e.is_idle() || !wb.is_empty() {
        guard += 1;
        if guard > 200 + 4 * limit {
            panic!("encoding through a write buffer does not end");
        }
        if !e.is_idle() && r.chance(2, 3) {
            kind(e.encode_to_write_buf(&mut wb))?;
        }
        if r.chance(2, 3) {
            kind(wb.flush(&mut w))?;
        }
    }
    Ok(w.out)
}
/// Every entry point; each builds its own encoder.
fn entry_points<E: Encode>(r: &mut Rng, item: &dyn Fn() -> E::Item, new: &dyn Fn() -> E, limit: usize) -> Vec<(&'static str, Out)> {
    let mut v: Vec<(&'static str, Out)> = vec![];
    let mut inc = |sizes: &[usize], r: &mut Rng| -> Out {
        let mut e = new();
        kind(e.start_encoding(item()))?;
        let mut out = vec![];
        let mut i = 0;
        while !e.is_idle() {
            let n = sizes[i % sizes.len()] + (i > 40 + limit) as usize;
            let mut b = vec![0xa5; n];
            let k = kind(e.encode(&mut b, Eos::new(false)))?;
            out.extend_from_slice(&b[..k.min(n)]);
            i += 1;
            if i > 300 + 4 * limit {
                panic!("encoding does not end");
            }
        }
        let _ = r;
        Ok(out)
    };
    let sizes: Vec<usize> = (0..5).map(|_| *r.pick(&[0usize, 1, 2, 5, 31, 1024])).collect();
    let one = inc(&[limit + 16], r);
    v.push(("incremental, one buffer", one));
    let many = inc(&sizes, r);
    v.push(("incremental, many buffers", many));
    v.push(("encode_all", {
        (|| -> Out {
            let mut e = new();
            kind(e.start_encoding(item()))?;
            let mut out = vec![];
            kind(e.encode_all(&mut out))?;
            if !e.is_idle() {
                panic!("encode_all returned with an encoder that is not idle");
            }
            Ok(out)
        })()
    }));
    let mode = r.below(4);
    let r2 = r.clone();
    v.push(("encode_all, slow writer", {
        (|| -> Out {
            let mut e = new();
            kind(e.start_encoding(item()))?;
            let mut w = Sink { out: vec![], r: r2, mode };
            kind(e.encode_all(&mut w))?;
            Ok(w.out)
        })()
    }));
    v.push(("encode_into_bytes", kind(new().encode_into_bytes(item()))));
    v.push(("write buffer", {
        let mut r3 = r.clone();
        (|| -> Out {
            let mut e = new();
            kind(e.start_encoding(item()))?;
            via_write_buf(&mut e, &mut r3, limit)
        })()
    }));
    v.push(("pre_encode", {
        (|| -> Out {
            let mut e: PreEncode<E> = new().pre_encode();
            kind(e.start_encoding(item()))?;
            let mut out = vec![];
            let n = e.exact_requiring_bytes();
            kind(e.encode_all(&mut out))?;
            if n != out.len() as u64 {
                panic!("pre_encode announced {} bytes and emitted {}", n, out.len());
            }
            Ok(out)
        })()
    }));
    v.push(("pre_encode and encode_into_bytes", kind(new().pre_encode().encode_into_bytes(item()))));
    v
}
fn agree(c: &mut Ctx, want: &Result<Vec<u8>, ()>, got: Vec<(&'static str, Out)>, what: &dyn Fn() -> String) {
    for (name, g) in got {
        c.count("entry_points_compared");
        let same = match (want, &g) {
            (Ok(w), Ok(g)) => w == g,
            (Err(()), Err(_)) => true,
            _ => false,
        };
        if !same {
            let show = |o: &Out| match o {
                Ok(b) => brief(b),
                Err(k) => format!("{:?}", k),
            };
            let w = match want {
                Ok(b) => brief(b),
                Err(()) => "a failure".into(),
            };
            c.fail(format!("{}: {} instead of {} [{}]", name, show(&g), w, what()));
        }
    }
}
fn c25_enc(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 10, 60, 1200, 3000]);
    let s = if r.chance(1, 3) {
        let cat = catalogue();
        r.pick(&cat).clone()
    } else {
        enc_shape(&mut r, size)
    };
    for _ in 0..2 {
        let Some((v, want)) = enc_item(&s, &mut r, size) else { return };
        mon::reset(0);
        c.eval((!want.is_empty()).then(|| hash_of(&(&s, &want))));
        let sized = r.bool();
        let got = entry_points(&mut r, &|| v.clone(), &|| super::enc::build(&s, sized, false), want.len());
        c.max("max_item_bytes", want.len() as u64);
        c.count("items_compared");
        agree(c, &Ok(want), got, &|| format!("{:?} {}", s, bdbg(&v)));
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?}", s));
}
/// Items that some encoder refuses, at once or along the way.
fn c25_fail(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 10, 60, 1500]);
    for _ in 0..4 {
        let (s, v) = match r.below(3) {
            0 => {
                let d = r.us(3);
                let s = gen_any(&mut r, GenOpt { decode_only: true, ..opt(size, d) }, false);
                let Some(v) = super::enc::gen_invalid(&s, &mut r) else { continue };
                if !matches!(refm::encode(&s, &v), Err(refm::EncErr::Refused(_))) {
                    continue;
                }
                (s, v)
            }
            k => {
                // an item longer or shorter than declared, or longer than the limit; possibly behind another one
                let d = r.us(3);
                let a = enc_shape(&mut r, size);
                let _ = d;
                if a.has_pad() {
                    continue;
                }
                let Some((v, e)) = enc_item(&a, &mut r, size) else { continue };
                let n = e.len() as u64;
                let s = if k == 1 {
                    let m = if r.bool() { n + 1 + r.below(4) } else { r.below(n.max(1)) };
                    if m == n {
                        continue;
                    }
                    Shape::Length(m, a.b())
                } else {
                    if n == 0 {
                        continue;
                    }
                    Shape::MaxBytes(r.below(n), a.b())
                };
                if r.bool() {
                    (Shape::Tuple(vec![Shape::Num(NumKind::U8), s]), Value::List(vec![Value::U(1), v]))
                } else {
                    (s, v)
                }
            }
        };
        mon::reset(0);
        let got = entry_points(&mut r, &|| v.clone(), &|| super::enc::build(&s, false, false), 4 * size + 600);
        c.count("failures_compared");
        c.eval(Some(hash_of(&(&s, &v))));
        agree(c, &Err(()), got, &|| format!("{:?} {}", s, bdbg(&v)));
        if !c.fails.is_empty() {
            return;
        }
    }
}
/// `with_item` equals starting an empty encoder.
fn c25_with_item(c: &mut Ctx) {
    use bytecodec::bytes::*;
    use bytecodec::combinator::*;
    use bytecodec::fixnum::*;
    use bytecodec::json_codec::JsonEncoder;
    use bytecodec::tuple::TupleEncoder;
    let mut r = Rng::new(c.rng.u64());
    macro_rules! t {
        ($t:ty, $item:expr) => {{
            let item = $item;
            let with = (|| -> Out {
                let mut e = kind(<$t>::with_item(item.clone()))?;
                let mut out = vec![];
                let mut r = r.clone();
                while !e.is_idle() {
                    let mut b = vec![0; 1 + r.us(40)];
                    let n = kind(e.encode(&mut b, Eos::new(false)))?;
                    out.extend_from_slice(&b[..n]);
                }
                Ok(out)
            })();
            let plain = (|| -> Out {
                let mut e = <$t>::default();
                kind(e.start_encoding(item.clone()))?;
                let mut out = vec![];
                kind(e.encode_all(&mut out))?;
                Ok(out)
            })();
            c.count("with_item_compared");
            c.eval(Some(hash_of(&(stringify!($t), format!("{:?}", plain)))));
            if with != plain {
                c.fail(format!("{}: with_item gives {:?}, start_encoding {:?} [{:?}]", stringify!($t), with, plain, item));
            }
            let limit = plain.as_ref().map_or(4000, |p| p.len());
            let i2 = item.clone();
            let got = entry_points(&mut r, &|| i2.clone(), &|| <$t>::default(), limit);
            agree(c, &plain.map_err(|_| ()), got, &|| format!("{} {:?}", stringify!($t), item));
        }};
    }
    let n = *r.pick(&[0usize, 1, 5, 255, 1023, 1024, 1025, 2047, 2048, 2049, 3000]);
    match c.idx % 12 {
        0 => t!(U8Encoder, r.byte()),
        1 => t!(U16beEncoder, r.u64() as u16),
        2 => t!(U24leEncoder, r.edge() as u32),
        3 => t!(U56beEncoder, r.edge()),
        4 => t!(F64leEncoder, r.u64() as u32 as f64),
        5 => t!(BytesEncoder<Vec<u8>>, r.bytes(n)),
        6 => t!(Utf8Encoder, gen_text(&mut r, n)),
        7 => t!(JsonEncoder<Doc>, gen_doc(&mut r, 2)),
        8 => t!(TupleEncoder<(U8Encoder, BytesEncoder<Vec<u8>>)>, (r.byte(), r.bytes(n))),
        9 => t!(PreEncode<TupleEncoder<(U16leEncoder, Utf8Encoder)>>, (r.u64() as u16, gen_text(&mut r, n))),
        10 => t!(Optional<U32beEncoder>, if r.bool() { Some(r.u64() as u32) } else { None }),
        _ => t!(bytecodec::bincode_codec::BincodeEncoder<BDoc>, gen_bdoc(&mut r)),
    }
}
fn c25_dec(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 10, 60, 1500]);
    let s = if r.chance(1, 3) {
        let cat = catalogue();
        r.pick(&cat).clone()
    } else {
        dec_shape(&mut r, size)
    };
    for _ in 0..4 {
        let b = match r.below(3) {
            0 => match valid_stream(&s, &mut r, 1, size) {
                Some((_, e)) => e.concat(),
                None => some_stream(&s, &mut r, size, false),
            },
            _ => some_stream(&s, &mut r, size, false),
        };
        let want = refm::decode(&s, &b);
        let (n, item, mask) = match &want {
            Res::Ill => {
                c.count("outside_specification");
                continue;
            }
            Res::Ok { n, item, .. } => (*n, item.clone(), 0),
            Res::Fail(m) => (usize::MAX, Err(m | refm::EOS), 1),
            Res::Pending => (usize::MAX, Err(refm::EOS | refm::INCOMPLETE), 1),
        };
        let _ = mask;
        mon::reset(0);
        c.eval((!b.is_empty()).then(|| hash_of(&(&s, &b))));
        c.max("max_item_bytes", b.len() as u64);
        let what = || format!("{:?} on {}", s, brief(&b));
        let same = |g: &Result<Value, ErrorKind>, w: &Result<Value, refm::Mask>| match (g, w) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        // the whole input must belong to the item
        let got = kind(mk::dec_bare(&s).decode_from_bytes(&b));
        let whole = if n == b.len() || n == usize::MAX { item.clone() } else { Err(refm::INVALID) };
        if !same(&got, &whole) {
            return c.fail(format!("decode_from_bytes returned {}, expected {} [{}]", bdbg(&got), bdbg(&want), what()));
        }
        c.count(if got.is_ok() { "decode_from_bytes_accepted" } else { "decode_from_bytes_rejected" });
        // from a reader
        let mut src = Src::new(&b, &mut r);
        let got = kind(mk::dec_bare(&s).decode_exact(&mut src));
        if !same(&got, &item) || (got.is_ok() && src.pos != n) {
            return c.fail(format!("decode_exact returned {} at {}, expected {} [{}]", bdbg(&got), src.pos, bdbg(&want), what()));
        }
        // through a read buffer
        let cap = *r.pick(&[1usize, 2, 3, 8, 100, 1024]);
        let mut rb = ReadBuf::new(vec![0; cap]);
        let mut src = Src::new(&b, &mut r);
        let mut d = mk::dec_bare(&s);
        let mut calls = 0;
        let got = loop {
            calls += 1;
            if calls > 4 * b.len() + 100 {
                return c.fail(format!("decoding from a read buffer does not end [{}]", what()));
            }
            if !d.is_idle() || calls == 1 && r.chance(1, 4) {
                if let Err(k) = kind(d.decode_from_read_buf(&mut rb)) {
                    break Err(k);
                }
            }
            if d.is_idle() {
                break kind(d.finish_decoding());
            }
            if rb.stream_state() == StreamState::Eos && rb.is_empty() {
                break Err(ErrorKind::UnexpectedEos);
            }
            if let Err(k) = kind(rb.fill(&mut src)) {
                panic!("HARNESS: fill {:?}", k);
            }
        };
        if !same(&got, &item) {
            return c.fail(format!("decoding from a read buffer of {} gave {}, expected {} [{}]", cap, bdbg(&got), bdbg(&want), what()));
        }
        if got.is_ok() {
            let mut rest = vec![];
            rb.read_to_end(&mut rest).unwrap();
            rest.extend_from_slice(&b[src.pos..]);
            if rest != b[n..] {
                return c.fail(format!("behind the item remain {} instead of {} [{}]", brief(&rest), brief(&b[n..]), what()));
            }
            c.count("read_buffer_items");
        }
        // incrementally
        let style = if s.any(&|s| matches!(s, Shape::MaxBytes(..))) { Style::Last } else { *r.pick(&[Style::Last, Style::Exact, Style::Empty, Style::Mixed]) };
        let cuts = random_cuts(&mut r, b.len());
        let seen = drive::decode(&mut mk::dec_bare(&s), &b, &cuts, style, &mut r, DecOpt { max_items: 1, ..Default::default() });
        if let Some(m) = judge(&course_to_refusal(&s, &b, 1), &seen, style) {
            return c.fail(format!("incremental: {} [{} cuts {:?} {:?}]", m, what(), cuts, style));
        }
        c.count("inputs_compared");
    }
    c.sample(|| format!("{:?}", s));
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        stages: vec![
            stage("encode", 8000, 400_000, c25_enc),
            stage("failing", 5000, 200_000, c25_fail),
            stage("with_item", 2400, 60_000, c25_with_item),
            stage("decode", 15_000, 700_000, c25_dec),
            stage("huge", 25, 1000, super::huge::entry),
        ],
        rule: RULE,
        must: &["items_compared", "failures_compared", "with_item_compared", "decode_from_bytes_accepted", "decode_from_bytes_rejected", "read_buffer_items"],
        level: "exploration",
        findings: vec![],
    }
}
