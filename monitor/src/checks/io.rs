//! C13, C14: read and write buffers and buffered streams over scripted, faulty streams; the monitor keeps
//! its own account of every byte and of the last operation on each stream.
use super::common::*;
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use trackable::error::ErrorKindExt;

pub const IO_ERRS: [io::ErrorKind; 9] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WriteZero,
    io::ErrorKind::NotConnected,
];
pub fn mapped(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof {
        ErrorKind::UnexpectedEos
    } else {
        ErrorKind::Other
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Moved(usize),
    Zero,
    Block,
    Err(io::ErrorKind),
}
impl Op {
    pub fn state(self) -> StreamState {
        match self {
            Op::Moved(_) => StreamState::Normal,
            Op::Zero => StreamState::Eos,
            Op::Block => StreamState::WouldBlock,
            Op::Err(_) => StreamState::Error,
        }
    }
}
/// What the stream did, as the stream saw it.
#[derive(Default)]
pub struct Log {
    pub ops: Vec<Op>,
    /// bytes handed out by the stream / accepted by the stream
    pub bytes: Vec<u8>,
    pub bad: Option<String>,
}
pub struct Stream {
    pub r: Rng,
    pub rd: Log,
    pub wr: Log,
    pub next: u64,
    /// what a writer must be offered next
    pub expect: VecDeque<u8>,
    /// weights: move, zero, block, error
    pub w: [u64; 4],
    pub maxlen: usize,
}
impl Stream {
    pub fn new(r: &mut Rng) -> Self {
        let w = *r.pick(&[[8, 1, 2, 1], [1, 0, 0, 0], [4, 0, 4, 0], [2, 1, 1, 1], [12, 0, 1, 1], [6, 2, 0, 0]]);
        let maxlen = *r.pick(&[1usize, 2, 3, 8, 100, 5000, usize::MAX]);
        Stream { r: Rng::new(r.u64()), rd: Log::default(), wr: Log::default(), next: r.u64(), expect: VecDeque::new(), w, maxlen }
    }
    /// No byte-wise transfers of large buffers.
    pub fn suits(&mut self, cap: usize) {
        if cap > 9999 {
            self.maxlen = self.maxlen.max(5000);
        }
    }
    pub fn decide(&mut self, n: usize) -> Op {
        let sum: u64 = self.w.iter().sum();
        let mut x = self.r.below(sum);
        for (i, w) in self.w.iter().enumerate() {
            if x < *w {
                return match i {
                    0 if n == 0 => Op::Zero,
                    0 => {
                        let k = if self.r.bool() { n.min(self.maxlen) } else { 1 + self.r.us(n.min(self.maxlen)) };
                        Op::Moved(k)
                    }
                    1 => Op::Zero,
                    2 => Op::Block,
                    _ => Op::Err(*self.r.pick(&IO_ERRS)),
                };
            }
            x -= w;
        }
        Op::Zero
    }
    fn byte(&mut self) -> u8 {
        self.next = mix(self.next);
        self.next as u8
    }
    pub fn do_read(&mut self, buf: &mut [u8]) -> Op {
        let op = self.decide(buf.len());
        if buf.is_empty() {
            self.rd.bad = Some("the stream was asked to read into an empty buffer".into());
        }
        if let Op::Moved(k) = op {
            for b in &mut buf[..k] {
                *b = self.byte();
            }
            self.rd.bytes.extend_from_slice(&buf[..k]);
        }
        self.rd.ops.push(op);
        op
    }
    pub fn do_write(&mut self, buf: &[u8]) -> Op {
        let op = self.decide(buf.len());
        if buf.is_empty() {
            self.wr.bad = Some("the stream was asked to write nothing".into());
        }
        if buf.len() > self.expect.len() || !buf.iter().eq(self.expect.iter().take(buf.len())) {
            let e: Vec<u8> = self.expect.iter().take(40).copied().collect();
            self.wr.bad = Some(format!("the stream was offered {} while {} bytes {} are held", brief(buf), self.expect.len(), brief(&e)));
        }
        if let Op::Moved(k) = op {
            self.wr.bytes.extend_from_slice(&buf[..k]);
            let k = k.min(self.expect.len());
            self.expect.drain(..k);
        }
        self.wr.ops.push(op);
        op
    }
}
fn as_io(op: Op) -> io::Result<usize> {
    match op {
        Op::Moved(k) => Ok(k),
        Op::Zero => Ok(0),
        Op::Block => Err(io::ErrorKind::WouldBlock.into()),
        Op::Err(k) => Err(io::Error::new(k, "scripted")),
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        as_io(self.do_read(buf))
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        as_io(self.do_write(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What the monitor knows about a read buffer.
pub struct RModel {
    pub held: VecDeque<u8>,
    pub cap: usize,
    pub state: StreamState,
}
/// Rules of one fill over `ops`; returns the expected result.
pub fn after_fill(m: &mut RModel, log: &mut Log, was_full: bool, full: bool) -> Result<Option<ErrorKind>, String> {
    if let Some(b) = log.bad.take() {
        return Err(b);
    }
    m.held.extend(log.bytes.drain(..));
    let ops = std::mem::take(&mut log.ops);
    stop_rules("fill", &ops, was_full, full, &mut m.state)
}
pub fn stop_rules(what: &str, ops: &[Op], was_done: bool, done: bool, state: &mut StreamState) -> Result<Option<ErrorKind>, String> {
    if was_done && !ops.is_empty() {
        return Err(format!("{} performed I/O {:?} although there was nothing to do", what, ops));
    }
    for (i, o) in ops.iter().enumerate() {
        if !matches!(o, Op::Moved(_)) && i + 1 != ops.len() {
            return Err(format!("{} went on after {:?}: {:?}", what, o, ops));
        }
    }
    match ops.last() {
        None => {
            if !was_done {
                return Err(format!("{} performed no I/O although there was something to do", what));
            }
            Ok(None)
        }
        Some(o) => {
            *state = o.state();
            match o {
                Op::Moved(_) if !done => Err(format!("{} stopped after {:?} although it was neither done nor stopped by the stream", what, ops)),
                Op::Err(k) => Ok(Some(mapped(*k))),
                _ => Ok(None),
            }
        }
    }
}
pub fn check_r<B: AsRef<[u8]> + AsMut<[u8]>>(b: &ReadBuf<B>, m: &RModel) -> Option<String> {
    let (len, room, cap) = (b.len(), b.room(), b.capacity());
    if len != m.held.len() {
        return Some(format!("len() is {}, {} bytes are held", len, m.held.len()));
    }
    sizes(len, room, cap, m.cap, b.is_empty(), b.is_full())
}
fn sizes(len: usize, room: usize, cap: usize, want_cap: usize, empty: bool, full: bool) -> Option<String> {
    if cap != want_cap {
        return Some(format!("capacity() is {} instead of {}", cap, want_cap));
    }
    if len.checked_add(room).map_or(true, |s| s > cap) {
        return Some(format!("len() {} and room() {} exceed capacity() {}", len, room, cap));
    }
    if empty != (len == 0) {
        return Some(format!("is_empty() is {} with {} bytes held", empty, len));
    }
    if full != (room == 0) {
        return Some(format!("is_full() is {} with room for {} bytes", full, room));
    }
    if len == 0 && room != cap {
        return Some(format!("an empty buffer of {} has room for only {} bytes", cap, room));
    }
    None
}
pub struct WModel {
    pub cap: usize,
    pub state: StreamState,
}
pub fn check_w<B: AsRef<[u8]> + AsMut<[u8]>>(b: &WriteBuf<B>, m: &WModel, held: usize) -> Option<String> {
    let (len, room, cap) = (b.len(), b.room(), b.capacity());
    if len != held {
        return Some(format!("len() is {}, {} bytes are held", len, held));
    }
    sizes(len, room, cap, m.cap, b.is_empty(), b.is_full())
}

/// A decoder that consumes what it is told and records what it saw.
struct ProbeDec {
    take: usize,
    fail: Option<ErrorKind>,
    saw: Vec<(Vec<u8>, Eos)>,
}
impl Decode for ProbeDec {
    type Item = ();
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.saw.push((b.to_vec(), eos));
        match self.fail {
            Some(k) => Err(k.cause("scripted").into()),
            None => Ok(self.take.min(b.len())),
        }
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        false
    }
}
struct ProbeEnc {
    data: Vec<u8>,
    fail: Option<ErrorKind>,
    saw: Vec<(usize, Eos)>,
}
impl Encode for ProbeEnc {
    type Item = ();
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.saw.push((b.len(), eos));
        let n = b.len().min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        match self.fail {
            Some(k) => Err(k.cause("scripted").into()),
            None => Ok(n),
        }
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        false
    }
}
const STATES: [StreamState; 4] = [StreamState::Normal, StreamState::Eos, StreamState::WouldBlock, StreamState::Error];
fn state_preds(s: StreamState) -> bool {
    (s.is_normal(), s.is_eos(), s.would_block(), s.is_error())
        == (s == StreamState::Normal, s == StreamState::Eos, s == StreamState::WouldBlock, s == StreamState::Error)
}
fn eos_ok(e: Eos, s: StreamState) -> bool {
    e == Eos::new(s == StreamState::Eos)
}

/// What a case is about: C13 looks at the bytes, C14 at the states.
#[derive(Clone, Copy, PartialEq)]
enum About {
    Bytes,
    States,
}
fn about(c: &Ctx) -> About {
    if c.prop == "C14" {
        About::States
    } else {
        About::Bytes
    }
}
/// The violations of a stop rule belong to C13, those of states and results to C14.
struct Judge<'a> {
    c: &'a mut Ctx,
    a: About,
    trace: Vec<String>,
}
impl Judge<'_> {
    fn bytes(&mut self, m: Option<String>) {
        if let (Some(m), About::Bytes) = (m, self.a) {
            self.fail(m);
        }
    }
    fn states(&mut self, ok: bool, m: impl FnOnce() -> String) {
        if !ok && self.a == About::States {
            let m = m();
            self.fail(m);
        }
    }
    fn fail(&mut self, m: String) {
        let k = self.trace.len().saturating_sub(12);
        let t = self.trace[k..].join("; ");
        self.c.fail(format!("{} [after: {}]", m, t));
    }
    fn dead(&self) -> bool {
        !self.c.fails.is_empty()
    }
}
fn capacity(r: &mut Rng) -> usize {
    if r.chance(1, 400) {
        return *r.pick(&[65_535usize, 65_536, 65_537, 100_000]);
    }
    match r.below(6) {
        0 => r.us(3),
        1 | 2 | 3 => 1 + r.us(9),
        4 => 10 + r.us(100),
        _ => *r.pick(&[1023usize, 1024, 1025, 4096]),
    }
}
fn read_ops<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Ctx, r: &mut Rng, inner: B) {
    let cap = inner.as_ref().len();
    let mut b = ReadBuf::new(inner);
    let mut s = Stream::new(r);
    s.suits(cap);
    let a = about(c);
    let mut j = Judge { c, a, trace: vec![format!("cap {} weights {:?} max {}", cap, s.w, s.maxlen)] };
    let mut m = RModel { held: VecDeque::new(), cap, state: StreamState::Normal };
    let mut given = 0u64;
    let mut got = 0u64;
    let steps = 20 + r.us(120);
    for _ in 0..steps {
        match r.below(10) {
            0..=3 => {
                let full = b.is_full();
                let res = kind(b.fill(&mut s));
                j.trace.push(format!("fill {:?} -> {:?}", s.rd.ops, res));
                given += s.rd.bytes.len() as u64;
                j.c.add("stream_operations", s.rd.ops.len() as u64);
                for o in &s.rd.ops {
                    j.c.count(match o {
                        Op::Moved(_) => "transfers",
                        Op::Zero => "ends_of_stream",
                        Op::Block => "would_blocks",
                        Op::Err(_) => "stream_errors",
                    });
                }
                let now_full = b.is_full();
                match after_fill(&mut m, &mut s.rd, full, now_full) {
                    Err(e) => j.bytes(Some(e)),
                    Ok(want) => {
                        let want = want.map_or(Ok(()), Err);
                        j.states(res == want, || format!("fill returned {:?}, expected {:?}", res, want));
                    }
                }
            }
            4..=6 => {
                let n = *r.pick(&[0usize, 1, 2, 3, 7, 50, 2000, if cap > 9999 { 70_000 } else { 4 }]);
                let mut out = vec![0xcc; n];
                match b.read(&mut out) {
                    Ok(k) => {
                        j.trace.push(format!("read {} -> {}", n, k));
                        let want: Vec<u8> = m.held.iter().take(n).copied().collect();
                        if k != want.len() || out[..k] != want[..] {
                            j.bytes(Some(format!("read returned {} bytes {} while {} are held: {}", k, brief(&out[..k.min(n)]), m.held.len(), brief(&want))));
                        }
                        if out[k.min(n)..].iter().any(|&x| x != 0xcc) {
                            j.bytes(Some("read wrote behind what it returned".into()));
                        }
                        m.held.drain(..want.len());
                        got += want.len() as u64;
                    }
                    Err(e) => j.bytes(Some(format!("read failed: {}", e))),
                }
            }
            7 | 8 => {
                let mut d = ProbeDec { take: *r.pick(&[0usize, 1, 2, 5, usize::MAX]), fail: r.chance(1, 5).then(|| *r.pick(&mon::KINDS)), saw: vec![] };
                let res = kind(d.decode_from_read_buf(&mut b));
                j.trace.push(format!("decode take {} fail {:?} -> {:?}", d.take, d.fail, res));
                let (saw, eos) = match &d.saw[..] {
                    [(x, e)] => (x.clone(), *e),
                    x => return j.fail(format!("the decoder was called {} times", x.len())),
                };
                if !saw.iter().eq(m.held.iter()) {
                    j.bytes(Some(format!("the decoder was shown {} while {} bytes are held", brief(&saw), m.held.len())));
                }
                j.states(eos_ok(eos, m.state), || format!("the decoder was told {:?} in state {:?}", eos, m.state));
                j.c.count("eos_hints_checked");
                let want = d.fail.map_or(Ok(()), Err);
                j.states(res == want, || format!("decoding returned {:?}, expected {:?}", res, want));
                if d.fail.is_none() {
                    let k = d.take.min(m.held.len());
                    m.held.drain(..k);
                    got += k as u64;
                }
            }
            _ => {
                if r.bool() {
                    m.state = *r.pick(&STATES);
                    *b.stream_state_mut() = m.state;
                    j.trace.push(format!("state := {:?}", m.state));
                } else {
                    // what is held is not lost when looking at the storage
                    if b.inner_ref().as_ref().len() != cap || b.inner_mut().as_mut().len() != cap {
                        j.bytes(Some("the storage changed its size".into()));
                    }
                }
            }
        }
        let x = check_r(&b, &m);
        j.bytes(x);
        let st = b.stream_state();
        j.states(st == m.state && state_preds(st), || format!("stream_state() is {:?}, the last operation left {:?}", st, m.state));
        if j.dead() {
            return;
        }
    }
    let mut rest = vec![];
    b.read_to_end(&mut rest).unwrap();
    got += rest.len() as u64;
    if !rest.iter().eq(m.held.iter()) || got != given {
        j.bytes(Some(format!("{} bytes were taken from the stream and {} handed out", given, got)));
    }
    c.add("bytes_accounted", given);
    c.eval((given > 0).then(|| hash_of(&(given, got, s.next, cap))));
}
fn write_ops<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Ctx, r: &mut Rng, inner: B) {
    let cap = inner.as_ref().len();
    let mut b = WriteBuf::new(inner);
    let mut s = Stream::new(r);
    s.suits(cap);
    let a = about(c);
    let mut j = Judge { c, a, trace: vec![format!("cap {} weights {:?} max {}", cap, s.w, s.maxlen)] };
    let mut m = WModel { cap, state: StreamState::Normal };
    let mut put = 0u64;
    let mut accepted: Vec<u8> = vec![];
    let mut all: Vec<u8> = vec![];
    let steps = 20 + r.us(120);
    for _ in 0..steps {
        match r.below(10) {
            0..=3 => {
                let empty = b.is_empty();
                let res = kind(b.flush(&mut s));
                j.trace.push(format!("flush {:?} -> {:?}", s.wr.ops, res));
                j.c.add("stream_operations", s.wr.ops.len() as u64);
                for o in &s.wr.ops {
                    j.c.count(match o {
                        Op::Moved(_) => "transfers",
                        Op::Zero => "ends_of_stream",
                        Op::Block => "would_blocks",
                        Op::Err(_) => "stream_errors",
                    });
                }
                accepted.append(&mut s.wr.bytes);
                let bad = s.wr.bad.take();
                j.bytes(bad);
                let ops = std::mem::take(&mut s.wr.ops);
                match stop_rules("flush", &ops, empty, b.is_empty(), &mut m.state) {
                    Err(e) => j.bytes(Some(e)),
                    Ok(want) => {
                        let want = want.map_or(Ok(()), Err);
                        j.states(res == want, || format!("flush returned {:?}, expected {:?}", res, want));
                    }
                }
            }
            4..=6 => {
                let n = *r.pick(&[0usize, 1, 2, 3, 7, 50, 2000, if cap > 9999 { 70_000 } else { 4 }]);
                let data = r.bytes(n);
                let room = b.room();
                match b.write(&data) {
                    Ok(k) => {
                        j.trace.push(format!("write {} -> {}", n, k));
                        if k != n.min(room) {
                            j.bytes(Some(format!("write took {} of {} bytes with room for {}", k, n, room)));
                        }
                        let k = k.min(n);
                        s.expect.extend(&data[..k]);
                        all.extend(&data[..k]);
                        put += k as u64;
                    }
                    Err(e) => j.bytes(Some(format!("write failed: {}", e))),
                }
                if r.chance(1, 6) {
                    let ops = s.wr.ops.len();
                    if Write::flush(&mut b).is_err() || s.wr.ops.len() != ops {
                        j.bytes(Some("Write::flush of the buffer itself failed".into()));
                    }
                }
            }
            7 | 8 => {
                let n = *r.pick(&[0usize, 1, 2, 5, 100, 3000]);
                let mut e = ProbeEnc { data: r.bytes(n), fail: r.chance(1, 5).then(|| *r.pick(&mon::KINDS)), saw: vec![] };
                let room = b.room();
                let res = if r.chance(1, 3) {
                    kind(e.encode_to_write_buf_async(&mut b, &mut std::task::Context::from_waker(std::task::Waker::noop())))
                } else {
                    kind(e.encode_to_write_buf(&mut b))
                };
                j.trace.push(format!("encode {} fail {:?} -> {:?}", n, e.fail, res));
                let (saw, eos) = match &e.saw[..] {
                    [x] => *x,
                    x => return j.fail(format!("the encoder was called {} times", x.len())),
                };
                if saw != room {
                    j.bytes(Some(format!("the encoder was given {} bytes of room {}", saw, room)));
                }
                j.states(eos_ok(eos, m.state), || format!("the encoder was told {:?} in state {:?}", eos, m.state));
                j.c.count("eos_hints_checked");
                let want = e.fail.map_or(Ok(()), Err);
                j.states(res == want, || format!("encoding returned {:?}, expected {:?}", res, want));
                if e.fail.is_none() {
                    let k = n.min(saw);
                    s.expect.extend(&e.data[..k]);
                    all.extend(&e.data[..k]);
                    put += k as u64;
                }
            }
            _ => {
                if r.bool() {
                    m.state = *r.pick(&STATES);
                    *b.stream_state_mut() = m.state;
                    j.trace.push(format!("state := {:?}", m.state));
                } else if b.inner_ref().as_ref().len() != cap || b.inner_mut().as_mut().len() != cap {
                    j.bytes(Some("the storage changed its size".into()));
                }
            }
        }
        let x = check_w(&b, &m, s.expect.len());
        j.bytes(x);
        let st = b.stream_state();
        j.states(st == m.state && state_preds(st), || format!("stream_state() is {:?}, the last operation left {:?}", st, m.state));
        if j.dead() {
            return;
        }
    }
    let mut rest = vec![];
    if kind(b.flush(&mut rest)).is_err() {
        j.bytes(Some("flushing to a vector failed".into()));
    }
    accepted.extend(rest);
    if accepted != all || !b.is_empty() {
        j.bytes(Some(format!("{} bytes were put into the buffer and {} came out", put, accepted.len())));
    }
    c.add("bytes_accounted", put);
    c.eval((put > 0).then(|| hash_of(&(hash_bytes(&all), cap))));
}
fn read_case(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    match r.below(5) {
        0 => read_ops(c, &mut r, [0u8; 5]),
        1 => {
            let n = capacity(&mut r);
            let mut v = vec![0xddu8; n];
            read_ops(c, &mut r, &mut v[..])
        }
        2 => {
            let n = capacity(&mut r);
            read_ops(c, &mut r, vec![7u8; n].into_boxed_slice())
        }
        _ => {
            let n = capacity(&mut r);
            read_ops(c, &mut r, vec![0u8; n])
        }
    }
}
fn write_case(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    match r.below(5) {
        0 => write_ops(c, &mut r, [0u8; 5]),
        1 => {
            let n = capacity(&mut r);
            let mut v = vec![0xddu8; n];
            write_ops(c, &mut r, &mut v[..])
        }
        2 => {
            let n = capacity(&mut r);
            write_ops(c, &mut r, vec![7u8; n].into_boxed_slice())
        }
        _ => {
            let n = capacity(&mut r);
            write_ops(c, &mut r, vec![0u8; n])
        }
    }
}
fn buffered(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (rc, wc) = (capacity(&mut r), capacity(&mut r));
    let mut s = Stream::new(&mut r);
    s.suits(rc.max(wc));
    let mut io = BufferedIo::new(s, rc, wc);
    let a = about(c);
    let mut j = Judge { c, a, trace: vec![format!("caps {} {} weights {:?} max {}", rc, wc, io.stream_ref().w, io.stream_ref().maxlen)] };
    let mut rm = RModel { held: VecDeque::new(), cap: rc, state: StreamState::Normal };
    let mut wm = WModel { cap: wc, state: StreamState::Normal };
    let mut seen = 0u64;
    for _ in 0..20 + r.us(100) {
        match r.below(8) {
            0..=3 => {
                let (full, empty) = (io.read_buf_ref().is_full(), io.write_buf_ref().is_empty());
                let res = kind(io.execute_io());
                let (rops, wops) = (io.stream_ref().rd.ops.clone(), io.stream_ref().wr.ops.clone());
                j.trace.push(format!("execute_io r{:?} w{:?} -> {:?}", rops, wops, res));
                j.c.add("stream_operations", (rops.len() + wops.len()) as u64);
                for o in rops.iter().chain(&wops) {
                    j.c.count(match o {
                        Op::Moved(_) => "transfers",
                        Op::Zero => "ends_of_stream",
                        Op::Block => "would_blocks",
                        Op::Err(_) => "stream_errors",
                    });
                }
                let now_full = io.read_buf_ref().is_full();
                let now_empty = io.write_buf_ref().is_empty();
                let st = io.stream_mut();
                seen += st.rd.bytes.len() as u64;
                let bad = st.wr.bad.take();
                st.wr.ops.clear();
                st.wr.bytes.clear();
                // an error in one direction may keep the other one from being served
                let r_err = matches!(rops.last(), Some(Op::Err(_)));
                let w_err = matches!(wops.last(), Some(Op::Err(_)));
                let x = if rops.is_empty() && w_err { Ok(None) } else { after_fill(&mut rm, &mut st.rd, full, now_full) };
                st.rd.ops.clear();
                j.bytes(bad);
                let y = if wops.is_empty() && r_err { Ok(None) } else { stop_rules("flush", &wops, empty, now_empty, &mut wm.state) };
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        let ok = match (&res, x, y) {
                            (Ok(()), None, None) => true,
                            (Err(k), x, y) => x == Some(*k) || y == Some(*k),
                            _ => false,
                        };
                        j.states(ok, || format!("execute_io returned {:?}, expected {:?} / {:?}", res, x, y));
                    }
                    (Err(e), _) | (_, Err(e)) => j.bytes(Some(e)),
                }
            }
            4 => {
                let n = if rc > 9999 && r.bool() { r.us(rc) } else { r.us(8) };
                let mut out = vec![0; n];
                let k = io.read_buf_mut().read(&mut out).unwrap();
                let want: Vec<u8> = rm.held.iter().take(n).copied().collect();
                j.trace.push(format!("read {} -> {}", n, k));
                if k != want.len() || out[..k] != want[..] {
                    j.bytes(Some(format!("read returned {} while {} bytes are held", brief(&out[..k.min(n)]), rm.held.len())));
                }
                rm.held.drain(..want.len());
            }
            5 => {
                let mut d = ProbeDec { take: r.us(5), fail: None, saw: vec![] };
                let _ = d.decode_from_read_buf(io.read_buf_mut());
                let k = d.take.min(rm.held.len());
                j.trace.push(format!("decode {}", k));
                let (saw, eos) = d.saw.pop().unwrap_or((vec![], Eos::new(false)));
                if !saw.iter().eq(rm.held.iter()) {
                    j.bytes(Some("the decoder was shown other bytes than held".into()));
                }
                j.states(eos_ok(eos, rm.state), || format!("the decoder was told {:?} in state {:?}", eos, rm.state));
                rm.held.drain(..k);
            }
            6 => {
                let n = r.us(9);
                let data = r.bytes(n);
                let room = io.write_buf_ref().room();
                let k = io.write_buf_mut().write(&data).unwrap();
                j.trace.push(format!("write {} -> {}", n, k));
                if k != n.min(room) {
                    j.bytes(Some(format!("write took {} of {} bytes with room for {}", k, n, room)));
                }
                io.stream_mut().expect.extend(&data[..k.min(n)]);
            }
            _ => {
                let n = r.us(9);
                let mut e = ProbeEnc { data: r.bytes(n), fail: None, saw: vec![] };
                let _ = e.encode_to_write_buf(io.write_buf_mut());
                let (saw, eos) = e.saw.pop().unwrap_or((0, Eos::new(false)));
                j.trace.push(format!("encode {}", n));
                j.states(eos_ok(eos, wm.state), || format!("the encoder was told {:?} in state {:?}", eos, wm.state));
                io.stream_mut().expect.extend(&e.data[..n.min(saw)]);
            }
        }
        let held = io.stream_ref().expect.len();
        let x = check_r(io.read_buf_ref(), &rm).or_else(|| check_w(io.write_buf_ref(), &wm, held));
        j.bytes(x);
        let (rs, ws) = (io.read_buf_ref().stream_state(), io.write_buf_ref().stream_state());
        j.states(rs == rm.state && ws == wm.state, || format!("states are {:?} and {:?}, the last operations left {:?} and {:?}", rs, ws, rm.state, wm.state));
        let eos = rm.state == StreamState::Eos || wm.state == StreamState::Eos;
        let e = io.is_eos();
        j.states(e == eos, || format!("is_eos() is {} in states {:?} and {:?}", e, rm.state, wm.state));
        let wb = rm.state == StreamState::WouldBlock && (held == 0 || wm.state == StreamState::WouldBlock);
        let w = io.would_block();
        j.states(w == wb, || format!("would_block() is {} in states {:?} and {:?} with {} bytes to write", w, rm.state, wm.state, held));
        if wb {
            j.c.count("blocked_observed");
        }
        if eos {
            j.c.count("eos_observed");
        }
        if j.dead() {
            return;
        }
    }
    c.add("bytes_accounted", seen);
    let s = io.into_stream();
    c.eval((seen > 0).then(|| hash_of(&(s.next, rc, wc, seen))));
}

/// A pipe between two buffered streams, with real codecs on both ends.
struct Pipe {
    q: Rc<RefCell<VecDeque<u8>>>,
    peer: Rc<RefCell<VecDeque<u8>>>,
    closed: Rc<Cell<bool>>,
    peer_closed: Rc<Cell<bool>>,
    r: Rng,
    lim: usize,
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.r.chance(1, 5) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut q = self.q.borrow_mut();
        if q.is_empty() {
            return if self.peer_closed.get() { Ok(0) } else { Err(io::ErrorKind::WouldBlock.into()) };
        }
        let k = (1 + self.r.us(self.lim)).min(q.len()).min(b.len());
        for x in &mut b[..k] {
            *x = q.pop_front().unwrap();
        }
        Ok(k)
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.r.chance(1, 4) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut q = self.peer.borrow_mut();
        let k = (1 + self.r.us(self.lim)).min(b.len());
        q.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn pipes(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 30, 200]);
    let d = r.us(3);
    let s = Shape::LenPrefix(NumKind::U16be, gen_region(&mut r, opt(size, d)).b());
    if s.has_pad() || s.any(&|s| matches!(s, Shape::MaxBytes(..))) || !s.reusable() {
        return;
    }
    let n = 1 + r.us(8);
    let Some((items, encs)) = valid_stream(&s, &mut r, n, size) else { return };
    // encode with the payload's own encoder
    let (qa, qb) = (Rc::new(RefCell::new(VecDeque::new())), Rc::new(RefCell::new(VecDeque::new())));
    let (ca, cb) = (Rc::new(Cell::new(false)), Rc::new(Cell::new(false)));
    let lim = *r.pick(&[1usize, 3, 50]);
    let mk = |q: &Rc<RefCell<VecDeque<u8>>>, p: &Rc<RefCell<VecDeque<u8>>>, cl: &Rc<Cell<bool>>, pc: &Rc<Cell<bool>>, r: &mut Rng| Pipe {
        q: q.clone(),
        peer: p.clone(),
        closed: cl.clone(),
        peer_closed: pc.clone(),
        r: Rng::new(r.u64()),
        lim,
    };
    let mut a = BufferedIo::new(mk(&qa, &qb, &ca, &cb, &mut r), 1 + r.us(20), 1 + r.us(20));
    let mut b = BufferedIo::new(mk(&qb, &qa, &cb, &ca, &mut r), 1 + r.us(20), 1 + r.us(20));
    mon::reset(0);
    // generic encoders of unsized payloads: pre-encoded lengths come from the reference
    struct Raw(Vec<u8>, usize);
    impl Encode for Raw {
        type Item = Vec<u8>;
        fn encode(&mut self, b: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
            let k = b.len().min(self.0.len() - self.1);
            b[..k].copy_from_slice(&self.0[self.1..self.1 + k]);
            self.1 += k;
            Ok(k)
        }
        fn start_encoding(&mut self, v: Vec<u8>) -> bytecodec::Result<()> {
            *self = Raw(v, 0);
            Ok(())
        }
        fn requiring_bytes(&self) -> ByteCount {
            ByteCount::Finite((self.0.len() - self.1) as u64)
        }
    }
    let mut enc = Raw(vec![], 0);
    let mut dec = mk::dec_bare(&s);
    let mut echo = Raw(vec![], 0);
    let mut back: Vec<u8> = vec![];
    let (mut sent, mut seen) = (0, 0);
    let total: usize = encs.iter().map(|e| e.len()).sum();
    let mut rounds = 0;
    let what = || format!("{:?} items {} lim {}", s, items.len(), lim);
    while back.len() < total {
        rounds += 1;
        if rounds > 4000 + 200 * total {
            return c.fail(format!("the exchange stalls with {} of {} items and {} of {} bytes back [{}]", seen, n, back.len(), total, what()));
        }
        if enc.is_idle() && sent < n {
            let _ = enc.start_encoding(encs[sent].clone());
            sent += 1;
        }
        if !enc.is_idle() {
            if let Err(k) = kind(enc.encode_to_write_buf(a.write_buf_mut())) {
                return c.fail(format!("encoding failed with {:?} [{}]", k, what()));
            }
        }
        for (x, y) in [(kind(a.execute_io()), 'a'), (kind(b.execute_io()), 'b')] {
            if let Err(k) = x {
                return c.fail(format!("I/O of {} failed with {:?} [{}]", y, k, what()));
            }
        }
        if echo.is_idle() && seen < n {
            if let Err(k) = kind(dec.decode_from_read_buf(b.read_buf_mut())) {
                return c.fail(format!("item #{}: decoding failed with {:?} [{}]", seen, k, what()));
            }
            if dec.is_idle() {
                match kind(dec.finish_decoding()) {
                    Ok(v) if v == items[seen] => {}
                    x => return c.fail(format!("item #{} arrived as {} instead of {} [{}]", seen, bdbg(&x), bdbg(&items[seen]), what())),
                }
                let _ = echo.start_encoding(encs[seen].clone());
                seen += 1;
                c.count("items_through_pipes");
            }
        }
        if !echo.is_idle() {
            let _ = echo.encode_to_write_buf(b.write_buf_mut());
        }
        let mut x = [0; 13];
        let k = a.read_buf_mut().read(&mut x).unwrap();
        back.extend_from_slice(&x[..k]);
    }
    if back != encs.concat() || seen != n {
        return c.fail(format!("the echo differs [{}]", what()));
    }
    c.add("bytes_accounted", total as u64);
    c.eval((total > 0).then(|| hash_of(&(&s, &encs, rounds))));
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        stages: vec![
            stage("read", 20_000, 1_200_000, read_case),
            stage("write", 20_000, 1_200_000, write_case),
            stage("buffered", 15_000, 900_000, buffered),
            stage("pipes", 3000, 100_000, pipes),
        ],
        rule: "operation sequences drawn from the seed against scripted streams that transfer short, block, end and fail; non-trivial if \
bytes moved; distinct by (bytes, capacities)",
        must: &["bytes_accounted", "would_blocks", "stream_errors", "ends_of_stream", "transfers", "items_through_pipes"],
        level: "fault_enumeration",
        findings: vec![],
    }
}
/// Every short sequence of stream events, for small buffers.
fn c14_scripts(c: &mut Ctx) {
    // events: 0 transfer one, 1 transfer all, 2 zero, 3 block, 4 error
    const N: u64 = 5;
    struct Scripted(Vec<u64>, usize, Vec<Op>);
    impl Scripted {
        fn next(&mut self, n: usize) -> io::Result<usize> {
            let e = *self.0.get(self.1).unwrap_or(&3);
            self.1 += 1;
            let op = match e {
                0 => Op::Moved(1.min(n)),
                1 => Op::Moved(n),
                2 => Op::Zero,
                3 => Op::Block,
                _ => Op::Err(io::ErrorKind::BrokenPipe),
            };
            self.2.push(op);
            as_io(op)
        }
    }
    impl Read for Scripted {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = self.next(b.len())?;
            b[..n].fill(1);
            Ok(n)
        }
    }
    impl Write for Scripted {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.next(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut i = c.idx;
    let mut ev = vec![];
    for _ in 0..5 {
        ev.push(i % N);
        i /= N;
    }
    for cap in 0..4usize {
        for held in 0..=cap {
            for init in STATES {
                for dir in 0..2 {
                    let mut s = Scripted(ev.clone(), 0, vec![]);
                    let mut state = init;
                    let mut rb = ReadBuf::new(vec![0; cap]);
                    let mut wb = WriteBuf::new(vec![0; cap]);
                    let _ = rb.fill(&vec![1u8; held][..]);
                    *rb.stream_state_mut() = init;
                    let _ = wb.write(&vec![1u8; held]);
                    *wb.stream_state_mut() = init;
                    for _ in 0..2 {
                        s.2.clear();
                        let (res, was, done, got) = if dir == 0 {
                            let was = rb.is_full();
                            let x = kind(rb.fill(&mut s));
                            (x, was, rb.is_full(), rb.stream_state())
                        } else {
                            let was = wb.is_empty();
                            let x = kind(wb.flush(&mut s));
                            (x, was, wb.is_empty(), wb.stream_state())
                        };
                        let w = if dir == 0 { "fill" } else { "flush" };
                        c.count("scripted_calls");
                        match stop_rules(w, &s.2, was, done, &mut state) {
                            Err(m) => return c.fail(format!("{} [cap {} held {} from {:?} events {:?}]", m, cap, held, init, ev)),
                            Ok(want) => {
                                let want = want.map_or(Ok(()), Err);
                                if res != want || got != state {
                                    return c.fail(format!(
                                        "{} returned {:?} and left {:?}, expected {:?} and {:?} [cap {} held {} from {:?} events {:?} performed {:?}]",
                                        w, res, got, want, state, cap, held, init, ev, s.2
                                    ));
                                }
                            }
                        }
                        c.eval(Some(hash_of(&(&ev, cap, held, dir))));
                    }
                }
            }
        }
    }
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        stages: vec![
            stage("scripts", 3125, 3125, c14_scripts),
            stage("read", 20_000, 1_200_000, read_case),
            stage("write", 20_000, 1_200_000, write_case),
            stage("buffered", 20_000, 1_200_000, buffered),
        ],
        rule: "all sequences of five stream events for buffers of up to three bytes, and drawn operation sequences against scripted streams; \
non-trivial if bytes moved; distinct by (events, capacities)",
        must: &["scripted_calls", "would_blocks", "stream_errors", "ends_of_stream", "eos_hints_checked", "blocked_observed", "eos_observed"],
        level: "fault_enumeration",
        findings: vec![],
    }
}
