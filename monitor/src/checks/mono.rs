//! C19: codecs around whole-document libraries.
use super::common::*;
use bytecodec::bincode_codec::*;
use bytecodec::json_codec::*;
use bytecodec::monolithic::*;
use serde::de::DeserializeOwned;
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Write};
use trackable::error::ErrorKindExt;

/// Drains an encoder whose output is `want`.
fn drain<E: Encode>(e: &mut E, want: &[u8], r: &mut Rng) -> Result<u64, String> {
    let total = want.len();
    let mut out: Vec<u8> = vec![];
    let mode = r.below(5);
    let slack = r.us(3);
    let exact = r.bool();
    let mut calls = 0;
    while !e.is_idle() {
        let left = total - out.len();
        let mut k = match mode {
            0 => total + 1,
            1 => 1,
            2 => r.us(4),
            3 => total,
            _ => r.us(left + 3),
        };
        calls += 1;
        if calls > 6 * total as u64 + 100 {
            return Err(format!("no end after {} of {} bytes", out.len(), total));
        }
        let mut eos = Eos::new(false);
        if exact {
            k = k.min(left + slack);
            eos = Eos::with_remaining_bytes(ByteCount::Finite((left + slack - k) as u64));
        }
        let mut buf = vec![0xbb; k];
        match kind(e.encode(&mut buf, eos)) {
            Ok(n) => {
                if n != k.min(left) {
                    return Err(format!("reported {} bytes for a buffer of {}, {} of {} left", n, k, left, total));
                }
                if buf[..n] != want[out.len()..out.len() + n] {
                    return Err(format!("wrote {} at {} of {}", brief(&buf[..n]), out.len(), brief(want)));
                }
                out.extend(&buf[..n]);
            }
            Err(x) => return Err(format!("failed with {:?} after {} of {} bytes ({} offered, {:?})", x, out.len(), total, k, eos)),
        }
        if let ByteCount::Finite(n) = e.requiring_bytes() {
            if n as usize != total - out.len() {
                return Err(format!("requires {} bytes, {} are left", n, total - out.len()));
            }
        }
    }
    if out != want {
        return Err(format!("idle after {} of {} bytes", out.len(), total));
    }
    Ok(calls)
}
/// Presents a document; the outcome of the whole.
fn present<D: Decode>(d: &mut D, b: &[u8], r: &mut Rng) -> Result<Result<D::Item, ErrorKind>, String> {
    let n = b.len();
    let mut cuts = random_cuts(r, n);
    let style = *r.pick(&[Style::Last, Style::Exact, Style::Empty, Style::Mixed]);
    if style == Style::Empty {
        cuts.push(0);
    }
    if matches!(style, Style::Exact | Style::Mixed) {
        while cuts.len() > 1 && *cuts.last().unwrap() == 0 {
            cuts.pop();
        }
    }
    let m = cuts.len();
    let mut pos = 0;
    for (i, k) in cuts.into_iter().enumerate() {
        if d.is_idle() {
            return Err(format!("complete after {} of {} bytes", pos, n));
        }
        if kind(d.finish_decoding()).err() != Some(ErrorKind::IncompleteDecoding) {
            return Err(format!("finished after {} of {} bytes", pos, n));
        }
        let eos = drive::eos_for(style, r, pos + k, n, i + 1 == m);
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(x) if x == k => {}
            Err(x) if eos.is_reached() => return Ok(Err(x)),
            x => return Err(format!("decoding {} bytes at {} of {} gave {:?} ({:?})", k, pos, n, x, eos)),
        }
        pos += k;
        if d.is_idle() != eos.is_reached() {
            return Err(format!("idle: {} after {:?}", d.is_idle(), eos));
        }
    }
    if !matches!(kind(d.decode(b"tail", Eos::new(true))), Ok(0)) {
        return Err("an idle decoder takes bytes".into());
    }
    Ok(kind(d.finish_decoding()))
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum En {
    A,
    B(u8, String),
    C { x: i64, y: Option<Vec<u16>> },
    D(Box<En>),
}
fn gen_en(r: &mut Rng, depth: u32) -> En {
    match r.below(if depth > 0 { 4 } else { 3 }) {
        0 => En::A,
        1 => {
            let k = r.us(12);
            En::B(r.byte(), gen_text(r, k))
        }
        2 => En::C { x: r.edge() as i64, y: if r.bool() { Some((0..r.below(5)).map(|_| r.u64() as u16).collect()) } else { None } },
        _ => En::D(Box::new(gen_en(r, depth - 1))),
    }
}
fn gen_json(r: &mut Rng, depth: u32) -> serde_json::Value {
    use serde_json::Value as J;
    match r.below(if depth > 0 { 8 } else { 6 }) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 => J::from(r.edge()),
        3 => J::from(r.edge() as i64),
        4 => J::from((r.edge() as i64 as f64) / 7.0),
        5 => {
            let k = r.us(20);
            J::from(gen_text(r, k))
        }
        6 => J::Array((0..r.below(5)).map(|_| gen_json(r, depth - 1)).collect()),
        _ => J::Object((0..r.below(5)).map(|i| { let k = i as usize; (gen_text(r, k), gen_json(r, depth - 1)) }).collect()),
    }
}
struct Codecs<T: Serialize + DeserializeOwned> {
    je: JsonEncoder<T>,
    jd: JsonDecoder<T>,
    be: BincodeEncoder<T>,
    bd: BincodeDecoder<T>,
}
fn lib_case<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(c: &mut Ctx, r: &mut Rng, bin: bool, g: &dyn Fn(&mut Rng) -> T) {
    let mut k = Codecs::<T> { je: JsonEncoder::new(), jd: JsonDecoder::new(), be: BincodeEncoder::new(), bd: BincodeDecoder::new() };
    for i in 0..1 + r.us(3) {
        let v = g(r);
        let ctx = |m: String, f: &str| format!("{} #{} of {}: {}", f, i, bdbg(&v), m);
        let j = serde_json::to_vec(&v).expect("HARNESS: json");
        if let Err(e) = kind(k.je.start_encoding(v.clone())) {
            return c.fail(ctx(format!("refused with {:?}", e), "json"));
        }
        if kind(k.je.start_encoding(v.clone())) != Err(ErrorKind::EncoderFull) {
            return c.fail(ctx("a busy encoder takes another item".into(), "json"));
        }
        match drain(&mut k.je, &j, r) {
            Err(m) => return c.fail(ctx(m, "json")),
            Ok(n) => c.add("encode_calls", n),
        }
        c.count("json_encoded");
        // Decoding: what the library makes of the bytes (floats may not round-trip).
        let mut doc = j.clone();
        if r.chance(1, 3) {
            let ws = b" \n\t\r";
            for _ in 0..1 + r.us(3) {
                let w = *r.pick(ws);
                if r.bool() {
                    doc.insert(0, w);
                } else {
                    doc.push(w);
                }
            }
        }
        let broken = r.chance(1, 3);
        if broken {
            mutate(&mut doc, r);
        }
        let want = serde_json::from_slice::<T>(&doc);
        match present(&mut k.jd, &doc, r) {
            Err(m) => return c.fail(format!("json document {}: {}", bdbg(&String::from_utf8_lossy(&doc)), m)),
            Ok(got) => match (&want, &got) {
                (Ok(a), Ok(b)) if a == b => c.count("json_decoded"),
                (Err(_), Err(ErrorKind::InvalidInput)) => {
                    c.count("json_rejected");
                    k.jd = JsonDecoder::new();
                }
                _ => return c.fail(format!("json document {} decodes to {} instead of {}", bdbg(&String::from_utf8_lossy(&doc)), bdbg(&got), bdbg(&want.map_err(|e| e.to_string())))),
            },
        }
        c.eval(Some(hash_of(&(&doc, 1))));
        if bin {
            let b = bincode::serialize(&v).expect("HARNESS: bincode");
            if let Err(e) = kind(k.be.start_encoding(v.clone())) {
                return c.fail(ctx(format!("refused with {:?}", e), "bincode"));
            }
            match drain(&mut k.be, &b, r) {
                Err(m) => return c.fail(ctx(m, "bincode")),
                Ok(n) => c.add("encode_calls", n),
            }
            c.count("bincode_encoded");
            let mut doc = b.clone();
            if r.chance(1, 3) {
                let n = r.us(doc.len() + 1);
                doc.truncate(n);
            }
            // With bincode's own reader interface, so that claimed lengths are treated alike; the whole document must be used.
            let mut cur = std::io::Cursor::new(&doc[..]);
            let want = bincode::deserialize_from::<_, T>(&mut cur);
            if want.is_ok() && cur.position() != doc.len() as u64 {
                continue;
            }
            match present(&mut k.bd, &doc, r) {
                Err(m) => return c.fail(format!("bincode document {}: {}", brief(&doc), m)),
                Ok(got) => match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => c.count("bincode_decoded"),
                    (Err(_), Err(ErrorKind::InvalidInput)) => {
                        c.count("bincode_rejected");
                        k.bd = BincodeDecoder::new();
                    }
                    _ => return c.fail(format!("bincode document {} decodes to {} instead of {}", brief(&doc), bdbg(&got), bdbg(&want.map_err(|e| e.to_string())))),
                },
            }
            c.eval(Some(hash_of(&(&doc, 2))));
        }
    }
}
fn mutate(d: &mut Vec<u8>, r: &mut Rng) {
    match r.below(6) {
        0 => {
            let n = r.us(d.len() + 1);
            d.truncate(n);
        }
        1 => d.extend(*r.pick(&[&b"1"[..], b"}", b"null", b"\0", b"x"])),
        2 if !d.is_empty() => {
            let i = r.us(d.len());
            d[i] = r.byte();
        }
        3 if !d.is_empty() => {
            let i = r.us(d.len());
            d.remove(i);
        }
        4 => {
            let i = r.us(d.len() + 1);
            d.insert(i, *r.pick(b"{}[],:\"\\0-e. "));
        }
        _ => d.clear(),
    }
}
fn library(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let r = &mut r;
    match c.idx % 12 {
        0 => lib_case::<Doc>(c, r, true, &|r| gen_doc(r, 3)),
        1 => lib_case::<En>(c, r, true, &|r| gen_en(r, 4)),
        2 => lib_case::<serde_json::Value>(c, r, false, &|r| gen_json(r, 4)),
        3 => lib_case::<()>(c, r, true, &|_| ()),
        4 => lib_case::<u64>(c, r, true, &|r| r.edge()),
        5 => lib_case::<(i8, i64, u16, bool, char)>(c, r, true, &|r| (r.byte() as i8, r.edge() as i64, r.u64() as u16, r.bool(), *r.pick(&['a', 'é', '\u{10ffff}', '"', '\n']))),
        6 => lib_case::<String>(c, r, true, &|r| {
            let k = if r.chance(1, 8) { r.us(20_000) } else { r.us(60) };
            gen_text(r, k)
        }),
        7 => lib_case::<Vec<Vec<u8>>>(c, r, true, &|r| (0..r.below(5)).map(|_| { let k = r.us(200); r.bytes(k) }).collect()),
        8 => lib_case::<BTreeMap<String, Option<i32>>>(c, r, true, &|r| (0..r.below(9)).map(|_| { let k = r.us(9); (gen_text(r, k), if r.bool() { Some(r.u64() as i32) } else { None }) }).collect()),
        9 => lib_case::<BTreeMap<u32, u8>>(c, r, true, &|r| (0..r.below(9)).map(|_| (r.u64() as u32, r.byte())).collect()),
        10 => lib_case::<Option<Box<Doc>>>(c, r, true, &|r| if r.bool() { Some(Box::new(gen_doc(r, 2))) } else { None }),
        _ => lib_case::<[u32; 4]>(c, r, true, &|r| [r.u64() as u32, 0, u32::MAX, r.edge() as u32]),
    }
    c.sample(|| "library document".into());
}

/// A value that cannot be serialized: after `good` elements, `kind` of failure.
struct Bad {
    good: usize,
    how: u8,
}
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.how {
            0 => {
                let mut q = s.serialize_seq(Some(self.good + 1))?;
                for i in 0..self.good {
                    q.serialize_element(&(i as u64))?;
                }
                Err(serde::ser::Error::custom("refusing"))
            }
            1 => {
                let mut m = s.serialize_map(Some(self.good + 1))?;
                for i in 0..self.good {
                    m.serialize_entry(&format!("k{}", i), &i)?;
                }
                // not a string, and not even serializable
                m.serialize_entry(&Bad { good: 0, how: 0 }, &1)?;
                m.end()
            }
            _ => {
                let mut m = s.serialize_struct("Bad", 2)?;
                m.serialize_field("a", &"x".repeat(self.good))?;
                m.serialize_field("b", &Bad { good: self.good / 2, how: self.how - 2 })?;
                m.end()
            }
        }
    }
}
/// JSON has no keys of these kinds; bincode needs lengths in advance.
struct Special(bool);
impl Serialize for Special {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            let mut m = s.serialize_map(Some(2))?;
            m.serialize_entry("fine", &1)?;
            m.serialize_entry(&[1, 2], &2)?;
            m.end()
        } else {
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&1u8)?;
            q.end()
        }
    }
}
fn until_error<E: Encode>(mut e: E, item: E::Item, r: &mut Rng) -> Result<(ErrorKind, usize), String> {
    let mut got = 0;
    if let Err(k) = kind(e.start_encoding(item)) {
        return Ok((k, 0));
    }
    let size = *r.pick(&[0usize, 1, 2, 7, 64, 100_000]);
    let mut buf = vec![0; size];
    for _ in 0..5000 {
        match kind(e.encode(&mut buf, Eos::new(false))) {
            Ok(n) => {
                got += n;
                if e.is_idle() {
                    return Err(format!("the encoder is idle after {} bytes, no error was reported", got));
                }
            }
            Err(k) => return Ok((k, got)),
        }
    }
    Err("neither an end nor an error".into())
}
fn unserializable(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let good = r.us(40);
    let how = r.below(6) as u8;
    let what;
    let res = if r.chance(1, 4) {
        let json = r.bool();
        what = format!("special, json: {}", json);
        if json {
            until_error(JsonEncoder::new(), Special(true), &mut r)
        } else {
            until_error(BincodeEncoder::new(), Special(false), &mut r)
        }
    } else {
        let json = r.bool();
        what = format!("failure {} after {} elements, json: {}", how, good, json);
        if json {
            until_error(JsonEncoder::new(), Bad { good, how }, &mut r)
        } else {
            until_error(BincodeEncoder::new(), Bad { good, how }, &mut r)
        }
    };
    match res {
        Ok((ErrorKind::InvalidInput, _)) => c.count("unserializable_reported"),
        Ok((k, _)) => c.fail(format!("{}: reported as {:?}", what, k)),
        Err(m) => c.fail(format!("{}: {}", what, m)),
    }
    c.eval(Some(hash_of(&(what.as_str(), good))));
    c.sample(|| what);
}

// ---- codecs defined by the user ----
#[derive(Default)]
struct UserDec {
    calls: Cell<u64>,
    seen: RefCell<Vec<Vec<u8>>>,
    how: Cell<u64>,
    fail: Cell<Option<ErrorKind>>,
}
impl MonolithicDecode for UserDec {
    type Item = Vec<u8>;
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> bytecodec::Result<Vec<u8>> {
        self.calls.set(self.calls.get() + 1);
        let mut v = vec![];
        match self.how.get() % 6 {
            0 => {
                reader.read_to_end(&mut v)?;
            }
            1 => {
                let mut b = [0; 1];
                while reader.read(&mut b)? == 1 {
                    v.push(b[0]);
                }
            }
            2 => {
                let mut b = [0xcc; 7];
                loop {
                    let n = reader.read(&mut b)?;
                    if n == 0 {
                        break;
                    }
                    v.extend(&b[..n]);
                }
                // at the end it stays at the end
                for _ in 0..3 {
                    if reader.read(&mut b)? != 0 {
                        v.push(0xff);
                    }
                }
            }
            3 => {
                for b in reader.bytes() {
                    v.push(b?);
                }
            }
            4 => {
                let mut b = vec![0; 3000];
                loop {
                    let n = reader.read(&mut b)?;
                    if n == 0 {
                        break;
                    }
                    v.extend(&b[..n]);
                }
            }
            _ => {
                let mut r = std::io::BufReader::with_capacity(5, reader);
                r.read_to_end(&mut v)?;
            }
        }
        self.seen.borrow_mut().push(v.clone());
        match self.fail.take() {
            Some(k) => Err(k.cause("user").into()),
            None => Ok(v),
        }
    }
}
fn user_dec(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut d = MonolithicDecoder::new(UserDec::default());
    let items = 1 + r.us(4);
    for i in 0..items {
        let n = if r.chance(1, 10) { r.us(20_000) } else { r.us(40) };
        let b = r.bytes(n);
        d.inner_mut().how.set(r.u64());
        let fail = if i + 1 == items && r.chance(1, 4) { Some(*r.pick(&mon::KINDS)) } else { None };
        d.inner_ref().fail.set(fail);
        let got = match present(&mut d, &b, &mut r) {
            Err(m) => return c.fail(format!("item #{} of {} bytes: {}", i, n, m)),
            Ok(x) => x,
        };
        let u = d.inner_ref();
        if u.calls.get() != i as u64 + 1 {
            return c.fail(format!("the user's decoder ran {} times for {} items", u.calls.get(), i + 1));
        }
        if u.seen.borrow().last() != Some(&b) {
            return c.fail(format!("the user's decoder saw {:?} instead of {:?}", u.seen.borrow().last().map(|x| brief(x)), brief(&b)));
        }
        let want = match fail {
            Some(k) => Err(k),
            None => Ok(b.clone()),
        };
        if got != want {
            return c.fail(format!("item is {} instead of {}", bdbg(&got), bdbg(&want)));
        }
        c.count(if fail.is_some() { "user_decode_errors" } else { "user_decoded" });
        c.eval(if n > 0 { Some(hash_of(&(b, c.idx))) } else { None });
    }
    if d.into_inner().calls.get() != items as u64 {
        c.fail("into_inner returns another decoder");
    }
    c.sample(|| format!("{} items", items));
}
#[derive(Default)]
struct UserEnc {
    calls: Cell<u64>,
    how: Cell<u64>,
    fail: Cell<Option<(usize, ErrorKind)>>,
}
impl MonolithicEncode for UserEnc {
    type Item = Rc<Vec<u8>>;
    fn monolithic_encode<W: Write>(&self, item: &Rc<Vec<u8>>, mut w: W) -> bytecodec::Result<()> {
        self.calls.set(self.calls.get() + 1);
        let fail = self.fail.take();
        let b = &item[..fail.map_or(item.len(), |f| f.0)];
        match self.how.get() % 6 {
            0 => w.write_all(b)?,
            1 => {
                for x in b {
                    w.write_all(&[*x])?;
                    w.flush()?;
                }
            }
            2 => {
                let mut p = 0;
                while p < b.len() {
                    let n = w.write(&b[p..(p + 5).min(b.len())])?;
                    if n == 0 {
                        return Err(ErrorKind::Other.cause("writer takes nothing").into());
                    }
                    p += n;
                }
            }
            3 => {
                w.write_all(&[])?;
                let m = b.len() / 2;
                w.write_all(&b[..m])?;
                w.write_all(&[])?;
                w.write_all(&b[m..])?;
            }
            4 => {
                let mut bw = std::io::BufWriter::with_capacity(3, &mut w);
                bw.write_all(b)?;
                bw.flush()?;
            }
            _ => {
                let m = b.len() / 3;
                let mut p = 0;
                while p < b.len() {
                    let a = &b[p..(p + m).min(b.len())];
                    let z = &b[(p + m).min(b.len())..];
                    let n = w.write_vectored(&[std::io::IoSlice::new(a), std::io::IoSlice::new(z)])?;
                    if n == 0 {
                        // only the first slice may have been looked at
                        w.write_all(&b[p..])?;
                        p = b.len();
                    }
                    p += n;
                }
            }
        }
        match fail {
            Some((_, k)) => Err(k.cause("user").into()),
            None => Ok(()),
        }
    }
}
fn user_enc(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut e = MonolithicEncoder::new(UserEnc::default());
    let items = 1 + r.us(4);
    for i in 0..items {
        let n = if r.chance(1, 10) { r.us(20_000) } else { r.us(40) };
        let b = Rc::new(r.bytes(n));
        e.inner_mut().how.set(r.u64());
        let fail = if i + 1 == items && r.chance(1, 4) { Some((r.us(n + 1), *r.pick(&mon::KINDS))) } else { None };
        e.inner_ref().fail.set(fail);
        if kind(e.start_encoding(b.clone())) != Ok(()) || e.is_idle() {
            return c.fail("an idle encoder refuses an item");
        }
        if kind(e.start_encoding(b.clone())) != Err(ErrorKind::EncoderFull) {
            return c.fail("a busy encoder takes an item");
        }
        match (drain(&mut e, &b, &mut r), fail) {
            (Ok(_), None) => c.count("user_encoded"),
            (Err(m), Some((_, k))) => {
                if !m.contains(&format!("failed with {:?} ", k)) {
                    return c.fail(format!("error {:?} of the user's encoder became: {}", k, m));
                }
                c.count("user_encode_errors");
            }
            (Ok(_), Some(f)) => return c.fail(format!("the error {:?} of the user's encoder was not reported", f)),
            (Err(m), None) => return c.fail(format!("item #{} of {} bytes: {}", i, n, m)),
        }
        if e.inner_ref().calls.get() != i as u64 + 1 {
            return c.fail(format!("the user's encoder ran {} times for {} items", e.inner_ref().calls.get(), i + 1));
        }
        if fail.is_none() && Rc::strong_count(&b) != 1 {
            return c.fail("the item is still held after it was written");
        }
        c.eval(if n > 0 { Some(hash_of(&(&b, c.idx))) } else { None });
    }
    if e.into_inner().calls.get() != items as u64 {
        c.fail("into_inner returns another encoder");
    }
    c.sample(|| format!("{} items", items));
}
/// Reads only so many bytes.
struct Partial(usize);
impl MonolithicDecode for Partial {
    type Item = Vec<u8>;
    fn monolithic_decode<R: Read>(&self, reader: R) -> bytecodec::Result<Vec<u8>> {
        let mut v = vec![];
        reader.take(self.0 as u64).read_to_end(&mut v)?;
        Ok(v)
    }
}
/// A document followed by bytes that do not belong to it.
fn with_trail<D: Decode>(c: &mut Ctx, r: &mut Rng, d: &mut D, doc: &[u8], name: &str, ok: &dyn Fn(&D::Item) -> bool) {
    let t = r.us(6);
    let b = [doc, &r.bytes(t)].concat();
    let n = b.len();
    let cuts = random_cuts(r, n);
    let m = cuts.len();
    let mut pos = 0;
    for (i, &k) in cuts.iter().enumerate() {
        let eos = Eos::new(i + 1 == m);
        let want = if i + 1 == m { doc.len().saturating_sub(pos).min(k) } else { k };
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(x) if x == want => {}
            x => return c.fail(format!("{}: document of {} in {} bytes, of the {} at {} {:?} were consumed", name, doc.len(), n, k, pos, x)),
        }
        pos += k;
    }
    c.eval(Some(hash_of(&(&b, doc.len(), &cuts))));
    match kind(d.finish_decoding()) {
        Ok(x) if ok(&x) => c.count("followed_documents"),
        Ok(_) => c.fail(format!("{}: document of {} in {} bytes: another item", name, doc.len(), n)),
        Err(k) => c.fail(format!("{}: document of {} in {} bytes: {:?}", name, doc.len(), n, k)),
    }
    // all at once, it is an error unless everything belongs to the document
    match kind(d.decode_from_bytes(&b)) {
        Ok(x) if t == 0 && ok(&x) => {}
        Err(ErrorKind::InvalidInput) if t > 0 => {}
        x => c.fail(format!("{}: document of {} in {} bytes: {:?}", name, doc.len(), n, x.map(|_| ()))),
    }
    if d.is_idle() {
        let _ = d.finish_decoding();
    }
}
fn trailing(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let r = &mut r;
    let mut bd = BincodeDecoder::<BDoc>::new();
    let mut sd = BincodeDecoder::<(u8, String)>::new();
    for _ in 0..2 {
        let v = gen_bdoc(r);
        let doc = bincode::serialize(&v).unwrap();
        with_trail(c, r, &mut bd, &doc, "bincode", &|x| *x == v);
        let k = r.us(30);
        let v = (r.byte(), gen_text(r, k));
        let doc = bincode::serialize(&v).unwrap();
        with_trail(c, r, &mut sd, &doc, "bincode", &|x| *x == v);
        let n = r.us(20);
        let doc = r.bytes(n);
        with_trail(c, r, &mut MonolithicDecoder::new(Partial(n)), &doc, "user-defined", &|x| *x == doc);
    }
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        stages: vec![
            stage("library", 60_000, 1_500_000, library),
            stage("unserializable", 10_000, 100_000, unserializable),
            stage("user_dec", 20_000, 400_000, user_dec),
            stage("user_enc", 20_000, 400_000, user_enc),
            stage("trailing", 10_000, 300_000, trailing),
        ],
        rule: "documents of 12 types, valid, padded with white space, mutated or truncated, and values that cannot be serialized, under random buffer \
schedules, against direct calls of serde_json and bincode; user-defined codecs that record what they see; distinct by document and schedule",
        must: &[
            "json_encoded", "json_decoded", "json_rejected", "bincode_encoded", "bincode_decoded", "bincode_rejected", "unserializable_reported",
            "user_decoded", "user_decode_errors", "user_encoded", "user_encode_errors", "followed_documents",
        ],
        level: "exploration",
        findings: vec![],
    }
}
