//! C30: numbers beyond the address space, on platforms where there are such numbers. Run by `tools/portable.py` only.
use super::common::*;
use crate::run::Prop;
use bytecodec::bytes::*;
use bytecodec::Result;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use std::io::{Read, Write};

/// Around multiples of 2^32, where a truncated number is 0 or small.
fn wide(r: &mut Rng) -> u64 {
    let k = *r.pick(&[1u64, 1, 2, 3, 7, 1 << 16, (1 << 31) - 1, 1 << 31]);
    let d = r.below(12);
    let n = k << 32;
    if r.chance(1, 4) {
        n - 1 - d
    } else {
        n + d
    }
}
/// Collects bytes; notices calls without end.
#[derive(Debug, Default)]
struct Sink {
    got: Vec<u8>,
    empty: u32,
    calls: u32,
}
impl Decode for Sink {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        self.calls += 1;
        self.empty += (buf.is_empty()) as u32;
        assert!(self.calls < 3000, "3000 calls, {} of them without input: no progress", self.empty);
        self.got.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Infinite
    }
    fn is_idle(&self) -> bool {
        false
    }
}
struct Reader<'a> {
    data: &'a [u8],
    step: usize,
    asked_nothing: u32,
}
impl Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.asked_nothing += b.is_empty() as u32;
        let n = b.len().min(self.step).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// A decoder that declares a wide number of bytes gets a short stream: everything there is must be read, nothing else.
fn streams(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let n = wide(&mut r);
    let len = r.us(2500);
    let data = r.bytes(len);
    let step = 1 + r.us(1500);
    let mut d = Sink::default().length(n);
    let what = format!("Length({}) on {} bytes, {} at a time", n, len, step);
    let mut rd = Reader { data: &data, step, asked_nothing: 0 };
    if r.bool() {
        let res = d.decode_exact(&mut rd);
        match res {
            Err(e) if *e.kind() == ErrorKind::UnexpectedEos => (),
            x => c.fail(format!("decode_exact: {:?}, expected UnexpectedEos [{}]", x.map(|v| v.len()), what)),
        }
    } else {
        let mut buf = ReadBuf::new(vec![0; 1 + r.us(600)]);
        let mut res = Ok(());
        let mut rounds = 0;
        while res.is_ok() && !buf.stream_state().is_eos() {
            rounds += 1;
            assert!(rounds < 3000, "no progress [{}]", what);
            res = buf.fill(&mut rd).and_then(|_| d.decode_from_read_buf(&mut buf));
        }
        // whatever has been left when the end of the stream became known
        match res.and_then(|_| d.decode_from_read_buf(&mut buf)) {
            Err(e) if *e.kind() == ErrorKind::UnexpectedEos => (),
            x => c.fail(format!("decode_from_read_buf: {:?}, expected UnexpectedEos [{}]", x, what)),
        }
    }
    let got = d.inner_ref().got.len();
    if d.inner_ref().got[..] != data[..got] || d.remaining_bytes() != n - got as u64 {
        c.fail(format!("{} bytes taken, {} remain of {} [{}]", got, d.remaining_bytes(), n, what));
    }
    if !rd.data.is_empty() {
        c.fail(format!("{} bytes not read [{}]", rd.data.len(), what));
    }
    c.count("streams_shorter_than_declared");
    c.eval(Some(mix(n) ^ mix(len as u64 ^ (step as u64) << 32)));
}
/// Says that it requires a wide number of bytes, whatever it writes.
#[derive(Debug, Default)]
struct Claim {
    left: Option<u64>,
    buf_seen: u64,
}
impl Encode for Claim {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        self.buf_seen += buf.len() as u64;
        let Some(left) = self.left else { return Ok(0) };
        let n = (buf.len() as u64).min(left);
        for x in &mut buf[..n as usize] {
            *x = 7;
        }
        self.left = if n == left { None } else { Some(left - n) };
        Ok(n as usize)
    }
    fn start_encoding(&mut self, n: u64) -> Result<()> {
        self.left = Some(n);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left.unwrap_or(0))
    }
    fn is_idle(&self) -> bool {
        self.left.is_none()
    }
}
impl SizedEncode for Claim {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left.unwrap_or(0)
    }
}
struct Full(u64, u64);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.1 - self.0);
        self.0 += n;
        Ok(n as usize)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Wide items meet destinations that are smaller.
fn items(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let n = wide(&mut r);
    let kind = r.below(5);
    match kind {
        // no Vec has so many bytes
        0 if n > usize::MAX as u64 => match Claim::default().encode_into_bytes(n) {
            Err(e) => {
                if *e.kind() != ErrorKind::Other {
                    c.fail(format!("encode_into_bytes of {} bytes: {:?}", n, e.kind()));
                }
            }
            Ok(v) => c.fail(format!("encode_into_bytes of {} bytes returned {} bytes", n, v.len())),
        },
        // a destination that accepts so much and no more
        0 | 1 => {
            let room = r.below(3000);
            let mut w = Full(0, room);
            let mut e = Claim { left: Some(n), buf_seen: 0 };
            let res = e.encode_all(&mut w);
            if res.is_ok() || w.0 != room || e.is_idle() {
                c.fail(format!("encode_all of {} bytes to a writer of {}: {:?}, {} written, idle {}", n, room, res.is_ok(), w.0, e.is_idle()));
            }
        }
        2 => {
            let mut buf = WriteBuf::new(vec![0; 1 + r.us(200)]);
            let mut w = Full(0, u64::MAX);
            let mut e = Claim { left: Some(n), buf_seen: 0 };
            let rounds = 1 + r.below(6);
            let mut bad = false;
            for _ in 0..rounds {
                bad |= e.encode_to_write_buf(&mut buf).is_err();
                bad |= buf.flush(&mut w).is_err();
            }
            if bad || w.0 != rounds * buf.capacity() as u64 || e.requiring_bytes().to_u64() != Some(n - w.0) {
                c.fail(format!("{} rounds through {} bytes: error {}, {} written, {:?} of {} left", rounds, buf.capacity(), bad, w.0, e.requiring_bytes(), n));
            }
        }
        // budgets and limits around the item, none of which it exceeds at once
        3 => {
            let limit = wide(&mut r);
            let mut e = Claim::default().max_bytes(limit.max(n));
            let mut b = vec![0; 1 + r.us(300)];
            let res = e.start_encoding(n.min(limit)).and_then(|_| e.encode(&mut b, Eos::new(false)));
            if !matches!(res, Ok(k) if k == b.len()) {
                c.fail(format!("max_bytes({}): {:?} for a buffer of {} and an item of {}", limit.max(n), res.map_err(|e| *e.kind()), b.len(), n.min(limit)));
            }
            let mut e = Claim::default().slice();
            e.set_consumable_bytes(limit);
            let res = e.start_encoding(n).and_then(|_| e.encode(&mut b, Eos::new(false)));
            if !matches!(res, Ok(k) if k == b.len()) || e.consumable_bytes() != limit - b.len() as u64 {
                c.fail(format!("slice: {:?} for a buffer of {}, {} of {} left", res.map_err(|e| *e.kind()), b.len(), e.consumable_bytes(), limit));
            }
            let mut e = Claim::default().length(n);
            let res = e.start_encoding(n).and_then(|_| e.encode(&mut b, Eos::new(false)));
            if !matches!(res, Ok(k) if k == b.len()) || e.requiring_bytes().to_u64() != Some(n - b.len() as u64) {
                c.fail(format!("length: {:?} for a buffer of {}, {:?} of {} left", res.map_err(|e| *e.kind()), b.len(), e.requiring_bytes(), n));
            }
        }
        // sums of sizes
        _ => {
            let m = wide(&mut r);
            let mut e = bytecodec::tuple::TupleEncoder::new((Claim::default(), Claim::default(), BytesEncoder::<[u8; 3]>::new()));
            let ok = e.start_encoding((n, m, [1, 2, 3])).is_ok();
            let sum = n.saturating_add(m).saturating_add(3);
            let got = e.requiring_bytes().to_u64();
            // an unrepresentable sum may also be reported as unknown or infinite
            if !ok || (got != Some(sum) && sum != u64::MAX) {
                c.fail(format!("tuple of {} and {} and 3: requires {:?}", n, m, got));
            }
            let eos = Eos::with_remaining_bytes(ByteCount::Finite(n));
            let x = eos.back(m).remaining_bytes().to_u64();
            if x != n.checked_add(m) && n.checked_add(m).is_some() {
                c.fail(format!("Eos of {} back {}: {:?}", n, m, x));
            }
        }
    }
    c.count("wide_items");
    c.eval(Some(mix(n) ^ mix(kind)));
}
/// A wide limit or budget around a decoder that takes less, and the counts it leaves.
fn budgets(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let n = wide(&mut r);
    let len = r.us(400);
    let data = r.bytes(len);
    let cut = r.us(len + 1);
    let feed = |d: &mut dyn FnMut(&[u8]) -> Result<usize>| -> Option<String> {
        for part in [&data[..cut], &data[cut..]] {
            match d(part) {
                Ok(k) if k == part.len() => (),
                x => return Some(format!("{:?} for {} bytes", x.map_err(|e| *e.kind()), part.len())),
            }
        }
        None
    };
    let eos = || Eos::new(false);
    let mut d = Sink::default().max_bytes(n);
    let mut bad = feed(&mut |b| d.decode(b, eos()));
    let (used, left) = (d.consumed_bytes(), bytecodec::combinator::MaxBytes::max_bytes(&d) - d.consumed_bytes());
    if used != len as u64 || left != n - used {
        bad = bad.or(Some(format!("{} consumed, {} of {} left", used, left, n)));
    }
    if let Some(m) = bad {
        c.fail(format!("max_bytes({}): {}", n, m));
    }
    let mut d = Sink::default().slice();
    d.set_consumable_bytes(n);
    let mut bad = feed(&mut |b| d.decode(b, eos()));
    if d.consumable_bytes() != n - len as u64 {
        bad = bad.or(Some(format!("{} of {} left", d.consumable_bytes(), n)));
    }
    if let Some(m) = bad {
        c.fail(format!("slice({}): {}", n, m));
    }
    let mut d = Sink::default().length(n);
    let mut bad = feed(&mut |b| d.decode(b, eos()));
    if d.requiring_bytes().to_u64() != Some(n - len as u64) || d.expected_bytes() != n {
        bad = bad.or(Some(format!("{:?} of {} required", d.requiring_bytes(), n)));
    }
    // a stream that is known to end in time, or not
    let more = wide(&mut r);
    let enough = more >= n - len as u64;
    let res = d.decode(&[], Eos::with_remaining_bytes(ByteCount::Finite(more)));
    if res.is_ok() != enough {
        bad = bad.or(Some(format!("{:?} with {} bytes to come", res.map_err(|e| *e.kind()), more)));
    }
    if let Some(m) = bad {
        c.fail(format!("length({}): {}", n, m));
    }
    c.count("wide_budgets");
    c.eval(Some(mix(n) ^ mix(len as u64 ^ (cut as u64) << 32)));
}
pub fn c30() -> Prop {
    Prop {
        id: "C30",
        stages: vec![stage("streams", 20_000, 20_000, streams), stage("items", 20_000, 20_000, items), stage("budgets", 20_000, 20_000, budgets)],
        rule: "",
        must: &[],
        level: "exploration",
        findings: vec![],
    }
}
