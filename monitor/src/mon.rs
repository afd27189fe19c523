//! Online monitors: wrapped around every node of a composed codec, they check each call against the
//! contract of the `Decode`/`Encode` traits, track stream positions, and can inject component errors.
use crate::mk::{DynDec, DynEnc};
use crate::refm::{self, bit};
use crate::rng::Rng;
use crate::shape::Shape;
use crate::value::Value;
use bytecodec::*;
use trackable::error::ErrorKindExt;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Violation categories; each property looks at those which its statement covers.
pub const PROTO: u32 = 1; // decoder call contract
pub const HINT: u32 = 2; // decoder byte hints
pub const TRUTH: u32 = 4; // positions and end-of-stream hints of components
pub const OUT: u32 = 8; // bytes emitted by an encoder node, buffer use
pub const COUNT: u32 = 16; // encoder byte counts and idleness
pub const ACCEPT: u32 = 32; // encoder acceptance
pub const FAULT: u32 = 64; // surfacing of component errors
pub const ALL: u32 = 127;

#[derive(Default)]
pub struct Tl {
    pub cats: u32,
    pub violations: Vec<String>,
    /// whole stream (address, length) and whether its end is announced to the codec
    pub stream: Option<(usize, usize)>,
    pub open: bool,
    /// inject an error of the kind into the n-th component call
    pub inject: Option<(u64, ErrorKind)>,
    pub injected: Option<ErrorKind>,
    pub calls: u64,
    pub counts: BTreeMap<&'static str, u64>,
    /// premature-finish injection
    pub poke: Option<Rng>,
    /// `map_err` functions rotate the kind
    pub rotate: bool,
    pub map_err_calls: u64,
    /// error-mapping nodes being called, and their number when the error was injected
    pub depth: u64,
    pub injected_depth: u64,
    /// a component reported an error of its own before the injected one (e.g. an earlier element of a tuple)
    pub genuine: bool,
    /// ... or behind it
    pub late: bool,
    /// panic in the n-th component call or user closure
    pub panic_at: Option<u64>,
}
thread_local! {
    pub static TL: RefCell<Tl> = RefCell::new(Tl::default());
    static USER: Cell<u64> = const { Cell::new(0) };
}
pub fn reset(cats: u32) {
    TL.with(|t| *t.borrow_mut() = Tl { cats, ..Tl::default() });
}
pub fn with<T>(f: impl FnOnce(&mut Tl) -> T) -> T {
    TL.with(|t| f(&mut t.borrow_mut()))
}
/// A component call or a call of a user closure is about to happen; it may have been chosen to panic.
pub fn maybe_panic() {
    let now = with(|t| match t.panic_at {
        Some(0) => {
            t.panic_at = None;
            *t.counts.entry("panics_injected").or_default() += 1;
            true
        }
        Some(n) => {
            t.panic_at = Some(n - 1);
            false
        }
        None => false,
    });
    if now {
        panic!("injected panic");
    }
}
pub fn count_call(k: &'static str) {
    maybe_panic();
    with(|t| *t.counts.entry(k).or_default() += 1);
}
pub fn calls_of(k: &'static str) -> u64 {
    with(|t| t.counts.get(k).copied().unwrap_or(0))
}
pub fn flag(cat: u32, msg: impl FnOnce() -> String) {
    with(|t| {
        if t.cats & cat != 0 && t.violations.len() < 5 {
            let m = msg();
            t.violations.push(m);
        }
    });
}
pub fn take_violations() -> Vec<String> {
    with(|t| std::mem::take(&mut t.violations))
}

pub const KINDS: [ErrorKind; 7] = [
    ErrorKind::InvalidInput,
    ErrorKind::InconsistentState,
    ErrorKind::UnexpectedEos,
    ErrorKind::EncoderFull,
    ErrorKind::DecoderTerminated,
    ErrorKind::IncompleteDecoding,
    ErrorKind::Other,
];
pub fn rotate(k: ErrorKind) -> ErrorKind {
    let i = KINDS.iter().position(|&x| x == k).unwrap();
    KINDS[(i + 1) % KINDS.len()]
}
/// The function given to `map_err` combinators.
pub fn map_err(e: Error) -> Error {
    maybe_panic();
    let rot = with(|t| {
        t.map_err_calls += 1;
        t.rotate
    });
    if rot {
        let k = rotate(*e.kind());
        Error::from(k.cause("mapped"))
    } else {
        e
    }
}

/// The part of the stream that a component is told about.
pub struct Region {
    limit: Option<u64>,
    root: Cell<Option<u32>>,
    end: Cell<Option<u64>>,
}
impl Region {
    pub fn top() -> Self {
        Region { limit: None, root: Cell::new(None), end: Cell::new(None) }
    }
    /// The first node of a region is its outermost one.
    pub fn set_root(&self, id: u32) {
        if self.root.get().is_none() {
            self.root.set(Some(id));
        }
    }
    pub fn limited(n: u64) -> Self {
        Region { limit: Some(n), ..Self::top() }
    }
}

fn injected(what: &'static str) -> Option<Error> {
    maybe_panic();
    with(|t| {
        t.calls += 1;
        let Some((n, k)) = t.inject else { return None };
        if n == 0 {
            t.inject = None;
            t.injected = Some(k);
            t.injected_depth = t.depth;
            return Some(Error::from(k.cause(format!("injected into {}", what))));
        }
        t.inject = Some((n - 1, k));
        None
    })
}

/// Calls a node; an error injected below must come out of it, mapped by each error-mapping node in between.
fn through<T>(shape: &Shape, what: &'static str, f: impl FnOnce() -> Result<T>) -> Result<T> {
    let m = matches!(shape, Shape::MapErr(_)) as u64;
    let (before, outer) = with(|t| {
        let d = t.depth;
        t.depth += m;
        (t.injected.is_some(), d)
    });
    let r = f();
    let (inj, idepth, rot, genuine) = with(|t| {
        t.depth = outer;
        t.genuine |= r.is_err() && t.injected.is_none();
        t.late |= r.is_err() && before;
        (t.injected, t.injected_depth, t.rotate, t.genuine)
    });
    if let (false, Some(k)) = (before, inj) {
        let mut want = k;
        if rot {
            for _ in outer..idepth {
                want = rotate(want);
            }
        }
        with(|t| *t.counts.entry("faults_seen_by_nodes").or_default() += 1);
        match &r {
            Ok(_) => flag(FAULT, || format!("{} of {:?} succeeded although a component reported {:?}", what, shape, k)),
            Err(e) if *e.kind() != want && !genuine => {
                flag(FAULT, || format!("{} of {:?} reported {:?} for the component error {:?}, expected {:?}", what, shape, e.kind(), k, want))
            }
            _ => {}
        }
    }
    r
}

pub struct MonDec {
    inner: DynDec,
    shape: Shape,
    id: u32,
    region: Rc<Region>,
    /// absolute position behind the last presented-and-consumed byte of the current item
    pos: Option<u64>,
    fresh: bool,
    consumed: u64,
    /// highest (consumed + hint) seen for the current item
    hint: Option<u64>,
    free: bool,
    has_len: bool,
}
impl MonDec {
    pub fn new(inner: DynDec, shape: &Shape, id: u32, region: Rc<Region>) -> Self {
        MonDec {
            inner,
            id,
            region,
            pos: None,
            fresh: true,
            consumed: 0,
            hint: None,
            free: !shape.eos_delimited(),
            has_len: shape.any(&|s| matches!(s, Shape::Length(..) | Shape::LenPrefix(..))),
            shape: shape.clone(),
        }
    }
    fn note_hint(&mut self) {
        if let ByteCount::Finite(k) = self.inner.requiring_bytes() {
            let v = self.consumed.saturating_add(k);
            if self.hint.map_or(true, |h| v > h) {
                self.hint = Some(v);
            }
        }
    }
    fn truth(&mut self, buf: &[u8], eos: Eos) {
        let Some((base, total)) = with(|t| t.stream) else { return };
        let p = buf.as_ptr() as usize;
        if p < base || p + buf.len() > base + total {
            if buf.len() > 0 {
                with(|t| *t.counts.entry("unlocated").or_default() += 1);
            }
            return;
        }
        let start = (p - base) as u64;
        let end = start + buf.len() as u64;
        if self.fresh {
            if self.region.root.get() == Some(self.id) {
                self.region.end.set(self.region.limit.map(|l| start.saturating_add(l)));
            }
        } else if let Some(pos) = self.pos {
            if pos != start {
                flag(TRUTH, || {
                    format!("component {:?} was presented position {} after having consumed up to {}", self.shape, start, pos)
                });
            }
        }
        let open = with(|t| t.open);
        let limited = self.region.limit.is_some();
        let rend = if limited { self.region.end.get() } else { Some(total as u64) };
        with(|t| *t.counts.entry("eos_hints_checked").or_default() += 1);
        if let Some(rend) = rend {
            if end > rend {
                flag(TRUTH, || format!("component {:?} was presented {}..{} beyond the end {} of its stream", self.shape, start, end, rend));
            }
            match eos.remaining_bytes() {
                ByteCount::Finite(r) => {
                    if (!limited && open) || end.saturating_add(r) != rend {
                        flag(TRUTH, || {
                            format!("component {:?} was told {:?} behind position {}, but its stream ends at {}{}", self.shape, eos, end, rend, if open { " (open)" } else { "" })
                        });
                    }
                }
                ByteCount::Infinite if limited || !open => {
                    flag(TRUTH, || format!("component {:?} was told {:?} although its stream ends at {}", self.shape, eos, rend));
                }
                _ if limited && self.region.root.get() == Some(self.id) => {
                    flag(TRUTH, || format!("component {:?} of a length-delimited region was told {:?}, its stream ends at {}", self.shape, eos, rend));
                }
                _ => {}
            }
        }
        self.pos = Some(start);
    }
}
impl Decode for MonDec {
    type Item = Value;

    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if let Some(e) = injected("decode") {
            return Err(e);
        }
        let was_idle = self.inner.is_idle();
        if !was_idle {
            self.note_hint();
            let poke = with(|t| t.poke.as_mut().is_some_and(|r| r.chance(1, 3)));
            if poke {
                with(|t| *t.counts.entry("premature_finishes").or_default() += 1);
                // Not counted as component calls, and not subject to injection.
                match self.inner.finish_decoding() {
                    Ok(v) => flag(PROTO, || format!("finishing {:?} succeeded though it was not idle: {:?}", self.shape, v)),
                    Err(e) => {
                        if *e.kind() != ErrorKind::IncompleteDecoding {
                            flag(PROTO, || format!("finishing {:?} early reported {:?} instead of IncompleteDecoding", self.shape, e.kind()));
                        }
                    }
                }
            }
        }
        self.truth(buf, eos);
        let n = through(&self.shape, "decode", || self.inner.decode(buf, eos))?;
        self.fresh = false;
        if let Some(p) = self.pos.as_mut() {
            *p += n as u64;
        }
        self.consumed += n as u64;
        let idle = self.inner.is_idle();
        if n > buf.len() {
            flag(PROTO, || format!("{:?} consumed {} of {} bytes", self.shape, n, buf.len()));
        }
        if was_idle && n != 0 {
            flag(PROTO, || format!("{:?} consumed {} bytes though it was idle", self.shape, n));
        }
        if was_idle && !idle {
            flag(PROTO, || format!("{:?} was idle and is not any more after decode", self.shape));
        }
        if n < buf.len() && !idle {
            flag(PROTO, || format!("{:?} consumed {} of {} bytes without being idle", self.shape, n, buf.len()));
        }
        if !idle {
            self.note_hint();
        }
        with(|t| *t.counts.entry("decode_calls").or_default() += 1);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<Value> {
        if let Some(e) = injected("finish_decoding") {
            return Err(e);
        }
        let was_idle = self.inner.is_idle();
        let req = self.inner.requiring_bytes();
        let r = through(&self.shape, "finish_decoding", || self.inner.finish_decoding());
        with(|t| *t.counts.entry("finish_calls").or_default() += 1);
        match &r {
            Ok(v) => {
                if !was_idle {
                    flag(PROTO, || format!("finishing {:?} succeeded though it was not idle: {:?}", self.shape, v));
                }
                if was_idle && req != ByteCount::Finite(0) {
                    flag(PROTO, || format!("{:?} was idle but required {:?}", self.shape, req));
                }
                if let (true, Some(h)) = (self.free, self.hint) {
                    with(|t| *t.counts.entry("hints_checked").or_default() += 1);
                    if h > self.consumed {
                        flag(HINT, || format!("{:?} claimed to need at least {} bytes for an item of {}", self.shape, h, self.consumed));
                    }
                }
            }
            Err(e) => {
                let inc = *e.kind() == ErrorKind::IncompleteDecoding;
                if !was_idle && !inc {
                    flag(PROTO, || format!("finishing {:?} early reported {:?} instead of IncompleteDecoding", self.shape, e.kind()));
                }
                if was_idle && inc && !self.has_len && with(|t| t.injected.is_none()) {
                    flag(PROTO, || format!("{:?} was idle but finishing reported IncompleteDecoding", self.shape));
                }
            }
        }
        if was_idle {
            self.fresh = true;
            self.pos = None;
            self.consumed = 0;
            self.hint = None;
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}

pub struct MonEnc<E> {
    inner: E,
    exact: Option<fn(&E) -> u64>,
    shape: Shape,
    expected: Option<Vec<u8>>,
    emitted: usize,
}
impl<E: Encode<Item = Value>> MonEnc<E> {
    pub fn new(inner: E, exact: Option<fn(&E) -> u64>, shape: &Shape) -> Self {
        let m = MonEnc { inner, exact, shape: shape.clone(), expected: Some(vec![]), emitted: 0 };
        m.counts("when fresh");
        m
    }
    fn counts(&self, when: &str) {
        let idle = self.inner.is_idle();
        let req = self.inner.requiring_bytes();
        if let Some(f) = self.exact {
            let x = f(&self.inner);
            if req != ByteCount::Finite(x) {
                flag(COUNT, || format!("{:?} {}: requiring_bytes {:?} but exact {}", self.shape, when, req, x));
            }
        }
        if idle && req != ByteCount::Finite(0) {
            flag(COUNT, || format!("{:?} {}: idle but requires {:?}", self.shape, when, req));
        }
        if let Some(e) = &self.expected {
            let left = (e.len() - self.emitted) as u64;
            with(|t| *t.counts.entry("counts_checked").or_default() += 1);
            if idle && left != 0 {
                flag(OUT | COUNT, || format!("{:?} {}: idle but {} bytes are missing", self.shape, when, left));
            }
            match req {
                ByteCount::Finite(k) if k != left => {
                    flag(COUNT, || format!("{:?} {}: claims {} remaining bytes, it is {}", self.shape, when, k, left));
                }
                ByteCount::Infinite => {
                    flag(COUNT, || format!("{:?} {}: claims infinitely many bytes, it is {}", self.shape, when, left));
                }
                _ => {}
            }
        }
    }
}
impl<E: Encode<Item = Value>> Encode for MonEnc<E> {
    type Item = Value;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        if let Some(e) = injected("encode") {
            return Err(e);
        }
        let was_idle = self.inner.is_idle();
        let n = through(&self.shape, "encode", || self.inner.encode(buf, eos))?;
        with(|t| *t.counts.entry("encode_calls").or_default() += 1);
        let idle = self.inner.is_idle();
        if n > buf.len() {
            flag(OUT, || format!("{:?} reports {} bytes written to a buffer of {}", self.shape, n, buf.len()));
            return Ok(n);
        }
        if was_idle && n > 0 {
            flag(OUT, || format!("{:?} was idle and wrote {} bytes", self.shape, n));
        }
        if n < buf.len() && !idle {
            flag(OUT, || format!("{:?} left {} of {} bytes unused without being idle", self.shape, buf.len() - n, buf.len()));
        }
        if let Some(e) = &self.expected {
            if e.get(self.emitted..self.emitted + n) != Some(&buf[..n]) {
                flag(OUT, || {
                    format!("{:?} emitted {:?} at offset {} of {:?}", self.shape, crate::brief(&buf[..n]), self.emitted, crate::brief(e))
                });
                self.expected = None;
            }
            self.emitted += n;
        }
        self.counts("after encode");
        Ok(n)
    }
    fn start_encoding(&mut self, item: Value) -> Result<()> {
        if let Some(e) = injected("start_encoding") {
            return Err(e);
        }
        let was_idle = self.inner.is_idle();
        let exp = refm::encode(&self.shape, &item);
        let none = matches!(&item, Value::Opt(None));
        let r = through(&self.shape, "start_encoding", || self.inner.start_encoding(item));
        with(|t| *t.counts.entry("start_calls").or_default() += 1);
        match &r {
            Ok(()) => {
                if was_idle {
                    self.expected = exp.ok();
                    self.emitted = 0;
                } else if !none && !exp.as_ref().is_ok_and(|e| e.is_empty()) {
                    flag(ACCEPT, || format!("{:?} accepted an item while it was busy", self.shape));
                }
                self.counts("after start");
            }
            Err(e) => {
                if !was_idle && exp.is_ok() && *e.kind() != ErrorKind::EncoderFull {
                    flag(ACCEPT, || format!("{:?} refused an item with {:?} instead of EncoderFull while busy", self.shape, e.kind()));
                }
                if was_idle && exp.is_ok() && with(|t| t.injected.is_none()) {
                    flag(ACCEPT, || format!("{:?} was idle but refused a valid item with {:?}", self.shape, e.kind()));
                }
                if let (true, Err(refm::EncErr::Refused(m))) = (was_idle, &exp) {
                    if m & bit(*e.kind()) == 0 && with(|t| t.injected.is_none()) {
                        flag(ACCEPT, || format!("{:?} refused an invalid item with {:?}", self.shape, e.kind()));
                    }
                }
                if !was_idle {
                    self.counts("after a refusal");
                }
            }
        }
        r
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
impl<E: SizedEncode<Item = Value>> SizedEncode for MonEnc<E> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.inner.exact_requiring_bytes()
    }
}
#[allow(dead_code)]
fn _types(_: DynEnc) {}
