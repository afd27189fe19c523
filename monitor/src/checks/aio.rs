//! C15: polled filling and flushing over scripted asynchronous streams, and wake-ups.
use super::common::*;
use super::io::{after_fill, check_r, check_w, stop_rules, Op, RModel, Stream, WModel};
use bytecodec::io::{BufferedIo, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Default)]
struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
/// Whether waking `w` reaches the task that `c` counts for.
fn reaches(w: &Option<Waker>, c: &Count) -> bool {
    let before = c.0.load(SeqCst);
    if let Some(w) = w {
        w.wake_by_ref();
    }
    c.0.swap(before, SeqCst) > before
}
/// The scripted stream as an asynchronous one; remembers whose waker it registered last.
struct Async {
    s: Stream,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
}
impl AsyncRead for Async {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = buf.remaining();
        let filled = buf.filled().len();
        if filled != 0 {
            self.s.rd.bad = Some(format!("the stream was given a buffer with {} filled bytes", filled));
        }
        let mut tmp = vec![0; n];
        match self.s.do_read(&mut tmp) {
            Op::Moved(k) => {
                if self.s.r.bool() {
                    buf.put_slice(&tmp[..k]);
                } else {
                    buf.initialize_unfilled()[..k].copy_from_slice(&tmp[..k]);
                    buf.advance(k);
                }
                Poll::Ready(Ok(()))
            }
            Op::Zero => Poll::Ready(Ok(())),
            Op::Block => {
                self.rwaker = Some(cx.waker().clone());
                Poll::Pending
            }
            Op::Err(k) => Poll::Ready(Err(io::Error::new(k, "scripted"))),
        }
    }
}
impl AsyncWrite for Async {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        match self.s.do_write(b) {
            Op::Moved(k) => Poll::Ready(Ok(k)),
            Op::Zero => Poll::Ready(Ok(0)),
            Op::Block => {
                self.wwaker = Some(cx.waker().clone());
                Poll::Pending
            }
            Op::Err(k) => Poll::Ready(Err(io::Error::new(k, "scripted"))),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl Read for Async {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.s.read(b)
    }
}
impl Write for Async {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.s.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Data(Vec<u8>);
impl Encode for Data {
    type Item = ();
    fn encode(&mut self, b: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.0.len() as u64)
    }
}
/// Result of a poll against what the stream did in this very call.
fn verdict(name: &str, res: &Poll<Result<(), ErrorKind>>, ops: &[Op], want: Option<ErrorKind>) -> Option<String> {
    let pending = ops.last() == Some(&Op::Block);
    let ok = match res {
        Poll::Pending => pending,
        Poll::Ready(Ok(())) => !pending && want.is_none(),
        Poll::Ready(Err(k)) => !pending && want == Some(*k),
    };
    (!ok).then(|| format!("{} returned {:?} after the operations {:?}", name, res, ops))
}
fn cap(r: &mut Rng) -> usize {
    if r.chance(1, 400) {
        return *r.pick(&[65_535usize, 65_536, 65_537, 100_000]);
    }
    match r.below(5) {
        0 => r.us(3),
        1..=3 => 1 + r.us(9),
        _ => *r.pick(&[50usize, 1024, 4096]),
    }
}
fn fill(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = cap(&mut r);
    let mut b = ReadBuf::new(vec![0u8; n]);
    let mut s = Async { s: Stream::new(&mut r), rwaker: None, wwaker: None };
    s.s.suits(n);
    let mut m = RModel { held: VecDeque::new(), cap: n, state: StreamState::Normal };
    let mut trace = vec![];
    let mut given = 0u64;
    for _ in 0..20 + r.us(80) {
        if r.chance(3, 5) {
            let w = Arc::new(Count::default());
            let waker = Waker::from(w.clone());
            let full = b.is_full();
            // blocking and polled calls may be mixed
            let polled = !r.chance(1, 6);
            let res = if polled {
                b.poll_fill(Pin::new(&mut s), &mut Context::from_waker(&waker)).map_err(|e| *e.kind())
            } else {
                Poll::Ready(kind(b.fill(&mut s)))
            };
            let ops = s.s.rd.ops.clone();
            given += s.s.rd.bytes.len() as u64;
            trace.push(format!("{} {:?} -> {:?}", if polled { "poll_fill" } else { "fill" }, ops, res));
            c.add("stream_operations", ops.len() as u64);
            count(c, &ops, polled);
            let full_now = b.is_full();
            match after_fill(&mut m, &mut s.s.rd, full, full_now) {
                Err(e) => c.fail(format!("{} {:?}", e, tail(&trace))),
                Ok(want) => {
                    if polled {
                        if let Some(e) = verdict("poll_fill", &res, &ops, want) {
                            c.fail(format!("{} {:?}", e, tail(&trace)));
                        }
                        if res.is_pending() && !reaches(&s.rwaker, &w) {
                            c.fail("poll_fill returned Pending without the waker having been registered with the stream");
                        }
                    }
                }
            }
        } else {
            let k = *r.pick(&[0usize, 1, 2, 5, 2000]);
            let mut out = vec![0; k];
            let got = b.read(&mut out).unwrap();
            let want: Vec<u8> = m.held.iter().take(k).copied().collect();
            trace.push(format!("read {} -> {}", k, got));
            if got != want.len() || out[..got] != want[..] {
                c.fail(format!("read returned {} while {} are held {:?}", brief(&out[..got]), m.held.len(), tail(&trace)));
            }
            m.held.drain(..want.len());
        }
        if let Some(e) = check_r(&b, &m) {
            c.fail(format!("{} {:?}", e, tail(&trace)));
        }
        if b.stream_state() != m.state {
            c.fail(format!("stream_state() is {:?}, the last operation left {:?} {:?}", b.stream_state(), m.state, tail(&trace)));
        }
        if !c.fails.is_empty() {
            return;
        }
    }
    c.add("bytes_accounted", given);
    c.eval((given > 0).then(|| hash_of(&(given, s.s.next, n))));
}
fn tail(t: &[String]) -> &[String] {
    &t[t.len().saturating_sub(8)..]
}
fn count(c: &mut Ctx, ops: &[Op], polled: bool) {
    for o in ops {
        c.count(match o {
            Op::Moved(_) => "transfers",
            Op::Zero => "ends_of_stream",
            Op::Block if polled => "pendings",
            Op::Block => "would_blocks",
            Op::Err(_) => "stream_errors",
        });
    }
}
/// Puts bytes into the buffer; with a waker through `encode_to_write_buf_async`.
fn put(b: &mut WriteBuf<Vec<u8>>, s: &mut Stream, r: &mut Rng, stored: &mut Option<(Arc<Count>, u64)>, trace: &mut Vec<String>) -> Option<String> {
    let k = *r.pick(&[0usize, 1, 2, 5, 30, 3000]);
    let data = r.bytes(k);
    let room = b.room();
    let took = if r.bool() {
        let w = Arc::new(Count::default());
        let mut e = Data(data.clone());
        let res = kind(e.encode_to_write_buf_async(b, &mut Context::from_waker(&Waker::from(w.clone()))));
        trace.push(format!("encode_to_write_buf_async {} -> {:?}", k, res));
        if res.is_err() {
            return Some(format!("encode_to_write_buf_async failed: {:?}", res));
        }
        *stored = Some((w.clone(), w.0.load(SeqCst)));
        k - e.0.len()
    } else if r.bool() {
        let mut e = Data(data.clone());
        let res = kind(e.encode_to_write_buf(b));
        trace.push(format!("encode_to_write_buf {} -> {:?}", k, res));
        k - e.0.len()
    } else {
        trace.push(format!("write {}", k));
        b.write(&data).unwrap()
    };
    s.expect.extend(&data[..took]);
    (took != k.min(room)).then(|| format!("{} of {} bytes were taken with room for {}", took, k, room))
}
/// The stored waker must have been woken if space has been freed.
fn woken(c: &mut Ctx, before: usize, after: usize, stored: &mut Option<(Arc<Count>, u64)>, trace: &[String]) {
    if after > before {
        if let Some((w, n)) = stored {
            c.count("wakeups_expected");
            let now = w.0.load(SeqCst);
            if now <= *n {
                c.fail(format!("room grew from {} to {}, but the waker stored when encoding was not woken {:?}", before, after, tail(trace)));
            }
            // it has been told; whether it is told again is up to the buffer
            *stored = None;
        }
    }
}
fn flush(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = cap(&mut r);
    let mut b = WriteBuf::new(vec![0u8; n]);
    let mut s = Async { s: Stream::new(&mut r), rwaker: None, wwaker: None };
    s.s.suits(n);
    let mut m = WModel { cap: n, state: StreamState::Normal };
    let mut trace = vec![];
    let mut stored = None;
    let mut moved = 0u64;
    for _ in 0..20 + r.us(80) {
        if r.chance(3, 5) {
            let w = Arc::new(Count::default());
            let waker = Waker::from(w.clone());
            let (empty, room) = (b.is_empty(), b.room());
            let polled = !r.chance(1, 4);
            let res = if polled {
                b.poll_flush(Pin::new(&mut s), &mut Context::from_waker(&waker)).map_err(|e| *e.kind())
            } else {
                Poll::Ready(kind(b.flush(&mut s)))
            };
            let ops = std::mem::take(&mut s.s.wr.ops);
            trace.push(format!("{} {:?} -> {:?}", if polled { "poll_flush" } else { "flush" }, ops, res));
            moved += std::mem::take(&mut s.s.wr.bytes).len() as u64;
            c.add("stream_operations", ops.len() as u64);
            count(c, &ops, polled);
            if let Some(e) = s.s.wr.bad.take() {
                c.fail(format!("{} {:?}", e, tail(&trace)));
            }
            match stop_rules("flush", &ops, empty, b.is_empty(), &mut m.state) {
                Err(e) => c.fail(format!("{} {:?}", e, tail(&trace))),
                Ok(want) => {
                    if polled {
                        if let Some(e) = verdict("poll_flush", &res, &ops, want) {
                            c.fail(format!("{} {:?}", e, tail(&trace)));
                        }
                        if res.is_pending() && !reaches(&s.wwaker, &w) {
                            c.fail("poll_flush returned Pending without the waker having been registered with the stream");
                        }
                    }
                }
            }
            // a blocking flush that fails reports the error instead
            woken(c, room, b.room(), &mut stored, &trace);
        } else if let Some(e) = put(&mut b, &mut s.s, &mut r, &mut stored, &mut trace) {
            c.fail(format!("{} {:?}", e, tail(&trace)));
        }
        if let Some(e) = check_w(&b, &m, s.s.expect.len()) {
            c.fail(format!("{} {:?}", e, tail(&trace)));
        }
        if b.stream_state() != m.state {
            c.fail(format!("stream_state() is {:?}, the last operation left {:?} {:?}", b.stream_state(), m.state, tail(&trace)));
        }
        if !c.fails.is_empty() {
            return;
        }
    }
    c.add("bytes_accounted", moved);
    c.eval((moved > 0).then(|| hash_of(&(moved, n, hash_of(&trace)))));
}
fn combined(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (rc, wc) = (cap(&mut r), cap(&mut r));
    let mut io = BufferedIo::new(Async { s: Stream::new(&mut r), rwaker: None, wwaker: None }, rc, wc);
    io.stream_mut().s.suits(rc.max(wc));
    let mut rm = RModel { held: VecDeque::new(), cap: rc, state: StreamState::Normal };
    let mut wm = WModel { cap: wc, state: StreamState::Normal };
    let mut trace = vec![format!("caps {} {}", rc, wc)];
    let mut stored = None;
    let mut seen = 0u64;
    for _ in 0..20 + r.us(60) {
        match r.below(6) {
            0..=2 => {
                let w = Arc::new(Count::default());
                let waker = Waker::from(w.clone());
                let (full, empty, room) = (io.read_buf_ref().is_full(), io.write_buf_ref().is_empty(), io.write_buf_ref().room());
                let polled = !r.chance(1, 6);
                let res = if polled {
                    Pin::new(&mut io).execute_io_poll(&mut Context::from_waker(&waker)).map_err(|e| *e.kind())
                } else {
                    Poll::Ready(kind(io.execute_io()))
                };
                let (rops, wops) = (io.stream_ref().s.rd.ops.clone(), std::mem::take(&mut io.stream_mut().s.wr.ops));
                trace.push(format!("{} r{:?} w{:?} -> {:?}", if polled { "execute_io_poll" } else { "execute_io" }, rops, wops, res));
                count(c, &rops, polled);
                count(c, &wops, polled);
                c.add("stream_operations", (rops.len() + wops.len()) as u64);
                let (full_now, empty_now, room_now) = (io.read_buf_ref().is_full(), io.write_buf_ref().is_empty(), io.write_buf_ref().room());
                let st = &mut io.stream_mut().s;
                seen += st.rd.bytes.len() as u64 + st.wr.bytes.len() as u64;
                st.wr.bytes.clear();
                let bad = st.wr.bad.take();
                if let Some(e) = bad {
                    c.fail(format!("{} {:?}", e, tail(&trace)));
                }
                let r_err = matches!(rops.last(), Some(Op::Err(_)));
                let w_err = matches!(wops.last(), Some(Op::Err(_)));
                let x = if rops.is_empty() && w_err { Ok(None) } else { after_fill(&mut rm, &mut st.rd, full, full_now) };
                st.rd.ops.clear();
                let y = if wops.is_empty() && r_err { Ok(None) } else { stop_rules("flush", &wops, empty, empty_now, &mut wm.state) };
                match (x, y) {
                    (Err(e), _) | (_, Err(e)) => c.fail(format!("{} {:?}", e, tail(&trace))),
                    (Ok(x), Ok(y)) if polled => {
                        let (rp, wp) = (rops.last() == Some(&Op::Block), wops.last() == Some(&Op::Block));
                        let ok = match &res {
                            Poll::Pending => rp && wp,
                            Poll::Ready(Ok(())) => x.is_none() && y.is_none() && !(rp && wp),
                            Poll::Ready(Err(k)) => x == Some(*k) || y == Some(*k),
                        };
                        if !ok {
                            c.fail(format!("execute_io_poll returned {:?} after reads {:?} and writes {:?} {:?}", res, rops, wops, tail(&trace)));
                        }
                        if rp && wp {
                            c.count("both_pending");
                        }
                        if x.is_some() != y.is_some() {
                            c.count("one_sided_errors");
                        }
                        let st = io.stream_ref();
                        if rp && !reaches(&st.rwaker, &w) || wp && !reaches(&st.wwaker, &w) {
                            c.fail("a direction is pending without the waker having been registered");
                        }
                    }
                    _ => {}
                }
                woken(c, room, room_now, &mut stored, &trace);
            }
            3 => {
                let k = r.us(9);
                let mut out = vec![0; k];
                let got = io.read_buf_mut().read(&mut out).unwrap();
                let want: Vec<u8> = rm.held.iter().take(k).copied().collect();
                trace.push(format!("read {}", k));
                if out[..got] != want[..] {
                    c.fail(format!("read returned {} {:?}", brief(&out[..got]), tail(&trace)));
                }
                rm.held.drain(..want.len());
            }
            _ => {
                let mut tmp = std::mem::take(&mut io.stream_mut().s.expect);
                let mut fake = Stream::new(&mut r.clone());
                fake.expect.append(&mut tmp);
                let e = put(io.write_buf_mut(), &mut fake, &mut r, &mut stored, &mut trace);
                io.stream_mut().s.expect = fake.expect;
                if let Some(e) = e {
                    c.fail(format!("{} {:?}", e, tail(&trace)));
                }
            }
        }
        let held = io.stream_ref().s.expect.len();
        if let Some(e) = check_r(io.read_buf_ref(), &rm).or_else(|| check_w(io.write_buf_ref(), &wm, held)) {
            c.fail(format!("{} {:?}", e, tail(&trace)));
        }
        if io.read_buf_ref().stream_state() != rm.state || io.write_buf_ref().stream_state() != wm.state {
            c.fail(format!("states are {:?} and {:?}, expected {:?} and {:?} {:?}", io.read_buf_ref().stream_state(), io.write_buf_ref().stream_state(), rm.state, wm.state, tail(&trace)));
        }
        if !c.fails.is_empty() {
            return;
        }
    }
    c.add("bytes_accounted", seen);
    c.eval((seen > 0).then(|| hash_of(&(rc, wc, hash_of(&trace)))));
}

// ------------------------------------------------------------------------------------------ executor
/// Tasks are polled only when woken; if nobody is woken and no stream event is outstanding before all bytes
/// have been exchanged, a wake-up was lost.
#[derive(Default)]
struct Flag(std::sync::atomic::AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
#[derive(Default)]
struct Duplex {
    q: VecDeque<u8>,
    cap: usize,
    closed: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
}
struct End {
    rd: Rc<RefCell<Duplex>>,
    wr: Rc<RefCell<Duplex>>,
    r: Rng,
    /// wakers of artificially pending operations, fired later
    later: Rc<RefCell<Vec<Waker>>>,
}
impl AsyncRead for End {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.r.chance(1, 4) {
            self.later.borrow_mut().push(cx.waker().clone());
            return Poll::Pending;
        }
        let want = 1 + self.r.us(9);
        let rd = self.rd.clone();
        let mut q = rd.borrow_mut();
        if q.q.is_empty() {
            if q.closed {
                return Poll::Ready(Ok(()));
            }
            q.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let k = want.min(q.q.len()).min(b.remaining());
        let v: Vec<u8> = q.q.drain(..k).collect();
        b.put_slice(&v);
        if let Some(w) = q.wwaker.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for End {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.r.chance(1, 4) {
            self.later.borrow_mut().push(cx.waker().clone());
            return Poll::Pending;
        }
        let want = 1 + self.r.us(9);
        let wr = self.wr.clone();
        let mut q = wr.borrow_mut();
        let k = want.min(b.len()).min(q.cap - q.q.len());
        if k == 0 {
            q.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        q.q.extend(&b[..k]);
        if let Some(w) = q.rwaker.take() {
            w.wake();
        }
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn executor(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let later: Rc<RefCell<Vec<Waker>>> = Default::default();
    let mk = |r: &mut Rng| Rc::new(RefCell::new(Duplex { cap: 1 + r.us(12), ..Default::default() }));
    let (ab, ba) = (mk(&mut r), mk(&mut r));
    let total = 1 + r.us(400);
    let data = r.bytes(total);
    let mut ios = vec![];
    for (rd, wr) in [(&ba, &ab), (&ab, &ba)] {
        let e = End { rd: rd.clone(), wr: wr.clone(), r: Rng::new(r.u64()), later: later.clone() };
        ios.push(Rc::new(RefCell::new(BufferedIo::new(e, 1 + r.us(10), 1 + r.us(10)))));
    }
    let got: Rc<RefCell<Vec<u8>>> = Default::default();
    // tasks: 0/1 drive the I/O of a and b; 2 encodes at a; 3 echoes at b
    let flags: Vec<Arc<Flag>> = (0..4).map(|_| Arc::new(Flag::default())).collect();
    flags.iter().for_each(|f| f.0.store(true, SeqCst));
    let wk: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut enc = Data(data.clone());
    let mut echo = Data(vec![]);
    let mut polls = 0u64;
    let mut lost = 0;
    while got.borrow().len() < total {
        polls += 1;
        if polls > 3000 + 400 * total as u64 {
            return c.fail(format!("the exchange of {} bytes does not end ({} back)", total, got.borrow().len()));
        }
        let ready: Vec<usize> = (0..4).filter(|&i| flags[i].0.load(SeqCst)).collect();
        // stream events fire now and then, and whenever everybody sleeps
        if ready.is_empty() || r.chance(1, 6) {
            let mut l = later.borrow_mut();
            if l.is_empty() && ready.is_empty() {
                lost += 1;
                break;
            }
            if !l.is_empty() {
                let i = r.us(l.len());
                l.swap_remove(i).wake();
            }
            continue;
        }
        let t = *r.pick(&ready);
        flags[t].0.store(false, SeqCst);
        let cx = &mut Context::from_waker(&wk[t]);
        match t {
            0 | 1 => {
                let mut io = ios[t].borrow_mut();
                let mut again = false;
                loop {
                    let (len, held) = (io.read_buf_ref().len(), io.write_buf_ref().len());
                    let p = Pin::new(&mut *io).execute_io_poll(cx).map_err(|e| *e.kind());
                    match p {
                        Poll::Pending => break,
                        Poll::Ready(Err(k)) => return c.fail(format!("execute_io_poll failed with {:?}", k)),
                        Poll::Ready(Ok(())) => {
                            // no progress: the pending direction wakes this task, the other one waits for its user
                            if io.read_buf_ref().len() == len && io.write_buf_ref().len() == held {
                                break;
                            }
                            again = true;
                        }
                    }
                }
                let _ = again;
                // tell the users of the read buffer
                if t == 0 {
                    let mut x = [0; 64];
                    let k = io.read_buf_mut().read(&mut x).unwrap();
                    got.borrow_mut().extend_from_slice(&x[..k]);
                    if k > 0 {
                        wk[0].wake_by_ref();
                    }
                } else if io.read_buf_ref().len() > 0 {
                    wk[3].wake_by_ref();
                }
            }
            2 => {
                if !enc.is_idle() {
                    let mut io = ios[0].borrow_mut();
                    let before = enc.0.len();
                    if let Err(k) = kind(enc.encode_to_write_buf_async(io.write_buf_mut(), cx)) {
                        return c.fail(format!("encoding failed with {:?}", k));
                    }
                    if enc.0.len() != before {
                        wk[0].wake_by_ref();
                    }
                    c.count("async_encodings");
                }
            }
            _ => {
                let mut io = ios[1].borrow_mut();
                if echo.is_idle() {
                    let mut x = [0; 7];
                    let k = io.read_buf_mut().read(&mut x).unwrap();
                    echo.0.extend_from_slice(&x[..k]);
                    if k > 0 {
                        wk[1].wake_by_ref();
                        wk[3].wake_by_ref();
                    }
                }
                if !echo.is_idle() {
                    let before = echo.0.len();
                    let _ = echo.encode_to_write_buf_async(io.write_buf_mut(), cx);
                    if echo.0.len() != before {
                        wk[1].wake_by_ref();
                    }
                    if echo.is_idle() {
                        wk[3].wake_by_ref();
                    }
                    c.count("async_encodings");
                }
            }
        }
    }
    if lost > 0 {
        return c.fail(format!(
            "every task sleeps and no event is outstanding with {} of {} bytes back: a wake-up was lost (to encode {} and {}, write buffers hold {} and {})",
            got.borrow().len(),
            total,
            enc.0.len(),
            echo.0.len(),
            ios[0].borrow().write_buf_ref().len(),
            ios[1].borrow().write_buf_ref().len()
        ));
    }
    if *got.borrow() != data {
        return c.fail("the echoed bytes differ");
    }
    c.add("executor_polls", polls);
    c.add("bytes_accounted", total as u64);
    c.count("exchanges_completed");
    c.eval(Some(hash_of(&(hash_bytes(&data), polls))));
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        stages: vec![
            stage("fill", 15_000, 900_000, fill),
            stage("flush", 20_000, 1_200_000, flush),
            stage("combined", 20_000, 1_200_000, combined),
            stage("executor", 3000, 100_000, executor),
        ],
        rule: "operation sequences drawn from the seed against scripted asynchronous streams, and exchanges between tasks that are polled only \
when woken; non-trivial if bytes moved; distinct by trace",
        must: &["bytes_accounted", "pendings", "stream_errors", "both_pending", "one_sided_errors", "wakeups_expected", "exchanges_completed"],
        level: "fault_enumeration",
        findings: vec![],
    }
}
