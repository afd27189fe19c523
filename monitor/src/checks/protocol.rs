//! Codecs that stall, are suspended, or do not keep what they claim, driven by the helpers that run a
//! codec to completion.
use super::common::*;
use bytecodec::bytes::{BytesDecoder, BytesEncoder};
use bytecodec::combinator::Slice;
use bytecodec::io::{IoDecodeExt, IoEncodeExt};
use std::io::{Read, Write};

const HANG: usize = 20_000;
thread_local!(static CALLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// The helper under observation does not come to an end: break out of it.
struct Hang;
fn tick() {
    CALLS.with(|c| {
        c.set(c.get() + 1);
        if c.get() > HANG {
            c.set(0);
            std::panic::resume_unwind(Box::new(Hang));
        }
    })
}
/// Runs `f`; `None` if it did not come to an end.
fn bounded<T>(f: impl FnOnce() -> T) -> Option<T> {
    CALLS.with(|c| c.set(0));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.is::<Hang>() => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}

struct OddEnc {
    data: Vec<u8>,
    pos: usize,
    step: usize,
    stall: usize,
    /// becomes idle only by one more call
    late: bool,
    claim: ByteCount,
    started: bool,
}
impl Encode for OddEnc {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        tick();
        if self.pos == self.data.len() && self.stall > self.pos {
            self.late = false;
        }
        let n = buf.len().min(self.step).min(self.data.len() - self.pos).min(self.stall.saturating_sub(self.pos));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        self.started = true;
        Ok(())
    }
    fn is_idle(&self) -> bool {
        !self.started || self.pos == self.data.len() && self.stall > self.pos && !self.late
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.claim {
            _ if self.is_idle() => ByteCount::Finite(0),
            ByteCount::Finite(n) => ByteCount::Finite(n.saturating_sub(self.pos as u64)),
            c => c,
        }
    }
}
/// A writer that accepts a few bytes at a time.
struct Slow<'a>(Vec<u8>, &'a mut Rng);
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = if self.1.bool() { b.len() } else { b.len().min(1 + self.1.us(40)) };
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn length(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1023, 1024, 1025, 2047, 2048, 2049, 3072]),
        2 => r.us(3000),
        _ => r.us(40),
    }
}
fn encoders(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let n = length(r);
    let data = r.bytes(n);
    let step = *r.pick(&[1, 2, 7, 1000, usize::MAX, usize::MAX]).max(&(n / 5000));
    let stall = if r.chance(1, 3) { r.us(n + 1) } else { usize::MAX };
    let l = n as u64;
    let claim = match r.below(8) {
        0 | 1 => ByteCount::Unknown,
        2 | 3 | 4 => ByteCount::Finite(l),
        5 => ByteCount::Finite(r.below(l + 1)),
        6 => ByteCount::Finite(l.saturating_sub(1)),
        _ => ByteCount::Infinite,
    };
    let late = claim == ByteCount::Unknown && r.chance(1, 4);
    let new = || OddEnc { data: data.clone(), pos: 0, step, stall, late, claim, started: false };
    let what = format!("encoder of {} bytes, {} at most at once, stalling at {}, late {}, claiming {:?}", n, step, stall, late, claim);
    c.eval(Some(hash_of(&(&data, step, stall, late, format!("{:?}", claim)))));
    let stalls = stall <= n;
    let have = stall.min(n);
    // to a writer: claims do not matter
    let mut e = new();
    e.start_encoding(()).unwrap();
    let mut w = Slow(vec![], r);
    match bounded(|| kind(e.encode_all(&mut w))) {
        None => return c.fail(format!("encode_all does not end: {}", what)),
        Some(Ok(())) if !stalls => c.count("completed"),
        Some(Err(_)) if stalls => c.count("stalls_reported"),
        x => return c.fail(format!("encode_all returned {:?}: {}", x, what)),
    }
    if w.0 != data[..have] {
        return c.fail(format!("encode_all wrote {} instead of {}: {}", brief(&w.0), brief(&data[..have]), what));
    }
    if stalls {
        // the obstacle goes away
        e.stall = usize::MAX;
        match bounded(|| kind(e.encode_all(&mut w))) {
            Some(Ok(())) if w.0 == data => c.count("resumed"),
            x => return c.fail(format!("resumed encode_all returned {:?} after {} of {}: {}", x, w.0.len(), n, what)),
        }
    }
    // into bytes
    let got = match bounded(|| kind(new().encode_into_bytes(()))) {
        Some(x) => x,
        None => return c.fail(format!("encode_into_bytes does not end: {}", what)),
    };
    let ok = match claim {
        ByteCount::Unknown => match &got {
            Ok(b) => !stalls && *b == data,
            Err(_) => stalls,
        },
        ByteCount::Finite(m) if m < l || stalls || step < n => {
            c.count("broken_claims");
            got == Err(ErrorKind::InconsistentState)
        }
        ByteCount::Finite(_) => got == Ok(data.clone()),
        // nothing is left from the start
        ByteCount::Infinite if n == 0 && !stalls => got == Ok(vec![]),
        ByteCount::Infinite => got == Err(ErrorKind::InvalidInput),
    };
    if !ok {
        return c.fail(format!("encode_into_bytes returned {}: {}", bdbg(&got.map(|b| b.len())), what));
    }
    // ahead of time
    let sound = claim == ByteCount::Unknown || claim == ByteCount::Finite(l) && step >= n;
    let mut p = new().pre_encode();
    match bounded(|| kind(p.start_encoding(()))) {
        None => return c.fail(format!("pre-encoding does not end: {}", what)),
        Some(x) if x.is_ok() && stalls || x.is_err() && sound && !stalls => return c.fail(format!("pre-encoding returned {:?}: {}", x, what)),
        Some(Ok(())) => {
            let mut out = vec![0; n];
            let k = kind(p.encode(&mut out, Eos::new(true)));
            if k != Ok(n) || out != data || !p.is_idle() {
                return c.fail(format!("pre-encoded item: {:?} {} instead of {}: {}", k, brief(&out), brief(&data), what));
            }
        }
        _ => {}
    }
    c.sample(|| what);
}

struct OddDec {
    need: usize,
    got: Vec<u8>,
    step: usize,
    stall: usize,
    /// complete only by one more call, with no bytes
    late: bool,
    claim: u64,
    claims: u8,
}
impl Decode for OddDec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], _: Eos) -> bytecodec::Result<usize> {
        tick();
        if self.got.len() == self.need && self.stall > self.need {
            self.late = false;
        }
        let n = buf.len().min(self.step).min(self.need - self.got.len()).min(self.stall.saturating_sub(self.got.len()));
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        if !self.is_idle() {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        Ok(std::mem::take(&mut self.got))
    }
    fn is_idle(&self) -> bool {
        self.got.len() == self.need && self.stall > self.need && !self.late
    }
    fn requiring_bytes(&self) -> ByteCount {
        let left = (self.need - self.got.len()) as u64;
        match self.claims {
            0 if !self.is_idle() => ByteCount::Unknown,
            1 => ByteCount::Finite(left),
            // a lower bound
            2 => ByteCount::Finite(left.min(1)),
            // too much
            3 if !self.is_idle() => ByteCount::Finite(left + self.claim),
            4 if !self.is_idle() => ByteCount::Infinite,
            _ => ByteCount::Finite(left),
        }
    }
}
struct Src<'a> {
    b: &'a [u8],
    pos: usize,
    r: &'a mut Rng,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        tick();
        let n = b.len().min(self.b.len() - self.pos);
        let n = if n > 0 && self.r.bool() { 1 + self.r.us(n) } else { n };
        b[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn decoders(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let n = length(r);
    let avail = match r.below(4) {
        0 => r.us(n + 1),
        1 => n,
        _ => n + r.us(9),
    };
    let b = r.bytes(avail);
    let claims = r.below(5) as u8;
    let step = if r.bool() { usize::MAX } else { *[1, 2, 7, 1000].iter().map(|x| (*x).max(n / 5000)).collect::<Vec<_>>().get(r.us(4)).unwrap() };
    let stall = if r.chance(1, 3) && n > 0 { r.us(n) } else { usize::MAX };
    // completing on an empty call only makes sense together with the exact claim
    let late = n > 0 && claims == 1 && r.chance(1, 4);
    let claim = 1 + r.below(2000);
    let new = || OddDec { need: n, got: vec![], step, stall, late, claim, claims };
    let what = format!("decoder of {} bytes, {} at most at once, stalling at {}, late {}, claims {} (+{}), input of {}", n, step, stall, late, claims, claim, avail);
    c.eval(Some(hash_of(&(&b, n, step, stall, late, claims))));
    let short = avail < n;
    // correct: everything presented is taken
    let correct = stall == usize::MAX && (claims == 0 && step >= 1 || claims == 2 || claims == 1 && step >= n);
    let mut src = Src { b: &b, pos: 0, r };
    // a stalled decoder is never presented anything if it claims to need nothing; here it always claims more
    let got = match bounded(|| kind(new().decode_exact(&mut src))) {
        Some(x) => x,
        None => return c.fail(format!("decode_exact does not end: {}", what)),
    };
    let pos = src.pos;
    match &got {
        Ok(x) => {
            if short || stall != usize::MAX || *x != b[..n] || pos != n {
                return c.fail(format!("decode_exact returned {} at {}: {}", brief(x), pos, what));
            }
            c.count("decoded");
        }
        Err(k) => {
            if correct && (!short || *k != ErrorKind::UnexpectedEos) {
                return c.fail(format!("decode_exact failed with {:?}: {}", k, what));
            }
            c.count(if correct { "ends_reported" } else { "broken_decoders_reported" });
        }
    }
    // all at once
    let got = match bounded(|| kind(new().decode_from_bytes(&b))) {
        Some(x) => x,
        None => return c.fail(format!("decode_from_bytes does not end: {}", what)),
    };
    let taken = avail.min(n).min(step).min(stall);
    let want = if taken != avail {
        Err(ErrorKind::InvalidInput)
    } else if taken < n || late || stall <= n {
        Err(ErrorKind::IncompleteDecoding)
    } else {
        Ok(b.clone())
    };
    if got != want {
        return c.fail(format!("decode_from_bytes returned {} instead of {}: {}", bdbg(&got), bdbg(&want), what));
    }
    c.count(if want.is_ok() { "decoded" } else { "broken_decoders_reported" });
    c.sample(|| what);
}
/// The library's own suspendable codec.
fn suspended(c: &mut Ctx) {
    let mut r0 = Rng::new(c.rng.u64());
    let r = &mut r0;
    let n = 1 + length(r);
    let data = r.bytes(n);
    let what = |q: &[usize]| format!("{} bytes, quotas {:?}", n, q);
    // encoder, in as many slices as it takes
    let mut e: Slice<BytesEncoder<Vec<u8>>> = BytesEncoder::new().slice();
    e.start_encoding(data.clone()).unwrap();
    let mut quotas = vec![];
    let mut w = Slow(vec![], r);
    loop {
        let q = match quotas.len() {
            m if m > 4 => n,
            _ => *[0, 1, 1024, 5].get(w.1.us(5)).unwrap_or(&(n / 2)),
        };
        quotas.push(q);
        let before = w.0.len();
        e.set_consumable_bytes(q as u64);
        let res = bounded(|| kind(e.encode_all(&mut w)));
        let upto = (before + q).min(n);
        if w.0[..] != data[..upto] || res.is_none() || e.consumable_bytes() != (q - (upto - before)) as u64 {
            return c.fail(format!("suspended encoder: {:?}, wrote {} instead of {}: {}", res, brief(&w.0), brief(&data[..upto]), what(&quotas)));
        }
        match res.unwrap() {
            Ok(()) if upto == n => break,
            Err(_) if upto < n => c.count("suspended_encoders_reported"),
            x => return c.fail(format!("suspended encoder: {:?} after {}: {}", x, upto, what(&quotas))),
        }
    }
    c.eval(Some(hash_of(&(&data, &quotas))));
    // into bytes
    let q = r.us(n + 1);
    let mut e = BytesEncoder::<Vec<u8>>::new().slice();
    e.set_consumable_bytes(q as u64);
    match bounded(|| kind(e.encode_into_bytes(data.clone()))) {
        Some(Ok(b)) if q >= n && b == data => {}
        Some(Err(ErrorKind::InconsistentState)) if q < n => c.count("suspended_encoders_reported"),
        x => return c.fail(format!("suspended encoder into bytes: {:?}: {}", x.map(|x| x.map(|b| b.len())), what(&[q]))),
    }
    // decoder
    let mut d = BytesDecoder::new(vec![0; n]).slice();
    d.set_consumable_bytes(q as u64);
    let mut src = Src { b: &data, pos: 0, r };
    match bounded(|| kind(d.decode_exact(&mut src))) {
        Some(Ok(b)) if q >= n && b == data => {}
        Some(Err(_)) if q < n => c.count("suspended_decoders_reported"),
        x => return c.fail(format!("suspended decoder: {:?}: {}", x.map(|x| x.map(|b| b.len())), what(&[q]))),
    }
    let mut d = BytesDecoder::new(vec![0; n]).slice();
    d.set_consumable_bytes(q as u64);
    match bounded(|| kind(d.decode_from_bytes(&data))) {
        Some(Ok(b)) if q >= n && b == data => {}
        Some(Err(_)) if q < n => c.count("suspended_decoders_reported"),
        x => return c.fail(format!("suspended decoder from bytes: {:?}: {}", x.map(|x| x.map(|b| b.len())), what(&[q]))),
    }
}
pub fn c29() -> Prop {
    Prop {
        id: "C29",
        stages: vec![stage("encoders", 15_000, 600_000, encoders), stage("decoders", 15_000, 600_000, decoders), stage("suspended", 6000, 200_000, suspended)],
        rule: "scripted codecs (bytes held, bytes per call, stalling point, late completion, truthful and wrong claims) and slices with drawn quotas, \
run by every driving helper; distinct by script and bytes",
        must: &["completed", "stalls_reported", "resumed", "broken_claims", "decoded", "ends_reported", "broken_decoders_reported", "suspended_encoders_reported", "suspended_decoders_reported"],
        level: "exploration",
        findings: vec![],
    }
}
