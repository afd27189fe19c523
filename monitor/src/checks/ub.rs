//! C27: memory. The native part accounts for every byte: released when the codec is gone, whatever happened to it,
//! and no result that depends on the contents of fresh or released memory. The same executions and samples of all
//! other properties' executions are then run under Miri, AddressSanitizer and MemorySanitizer (`tools/ub.py`).
use super::common::*;
use super::passthru::Mine;
use crate::{alloc, run};
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::io::*;
use bytecodec::json_codec::*;
use bytecodec::null::*;
use bytecodec::tuple::*;
use std::collections::LinkedList;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const FILLS: [u8; 3] = [0, 0xa5, 0x5a];

/// Runs the scenario with clean and with junk-filled memory: same digest, and nothing left behind.
fn measured(c: &mut Ctx, what: &dyn Fn() -> String, f: &mut dyn FnMut(usize) -> u64) -> bool {
    let mut dig = [0u64; 3];
    let mut left = [0isize; 3];
    for i in 0..3 {
        mon::reset(0);
        drop(run::last_panic());
        alloc::set_fill(FILLS[i]);
        let before = alloc::live();
        dig[i] = f(i);
        mon::reset(0);
        drop(run::last_panic());
        left[i] = alloc::live() - before;
        alloc::set_fill(0);
    }
    c.count("memory_balances_checked");
    if dig[0] != dig[1] || dig[0] != dig[2] {
        c.fail(format!("the outcome depends on the contents of fresh or released memory [{}]", what()));
        return false;
    }
    // The first round may initialise something for good.
    if left[1] != 0 && left[2] != 0 {
        c.fail(format!("{} bytes, and again {} bytes were not released (or released twice) [{}]", left[1], left[2], what()));
        return false;
    }
    true
}

/// A hash that does not allocate.
struct Dig(u64);
impl Dig {
    fn add<T: Debug>(&mut self, t: &T) {
        struct W<'a>(&'a mut u64);
        impl std::fmt::Write for W<'_> {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                *self.0 = mix(*self.0 ^ hash_bytes(s.as_bytes()));
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut W(&mut self.0), format_args!("{:?};", t));
    }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(x) => Some(x),
        Err(_) => {
            drop(run::last_panic());
            None
        }
    }
}
fn case_shape(c: &Ctx, r: &mut Rng) -> (Shape, usize) {
    if c.stage.starts_with("catalogue") {
        let cat = catalogue();
        (cat[c.idx as usize % cat.len()].clone(), 8)
    } else {
        let size = *r.pick(&[3usize, 9, 30, 90]);
        (dec_shape(r, size), size)
    }
}

/// A history of calls on a decoder, each with its own buffer of exactly the right size that is gone afterwards.
fn history_dec<D: Decode>(d: &mut D, b: &[u8], calls: usize, r: &mut Rng, g: &mut Dig)
where
    D::Item: Debug,
{
    let mut pos = 0;
    let mut after_panic = 0;
    for _ in 0..calls {
        let left = b.len() - pos;
        let n = if r.chance(1, 3) { left } else { r.us(left.min(9) + 1) };
        let seg: Box<[u8]> = b[pos..pos + n].into();
        let eos = if r.chance(1, 3) { Eos::with_remaining_bytes(ByteCount::Finite((left - n) as u64)) } else { Eos::new(n == left && r.bool()) };
        let out = guard(|| {
            let x = d.requiring_bytes();
            if d.is_idle() || r.chance(1, 12) {
                let v = kind(d.finish_decoding());
                (x, 0, Some(v))
            } else {
                let k = kind(d.decode(&seg, eos));
                (x, k.map_or(usize::MAX, |k| k), None)
            }
        });
        g.add(&out);
        match &out {
            Some((_, k, None)) if *k <= n => pos += k,
            _ => {}
        }
        if out.is_none() || matches!(out, Some((_, usize::MAX, _))) {
            after_panic += 1;
            if after_panic > 3 {
                break;
            }
        }
        drop(seg);
        drop(out);
    }
}
fn history_enc<E: Encode>(e: &mut E, mut items: Vec<E::Item>, calls: usize, r: &mut Rng, g: &mut Dig) {
    let mut bad = 0;
    for _ in 0..calls {
        let n = if r.chance(1, 4) { 200 } else { r.us(9) };
        let mut seg: Box<[u8]> = vec![0x77; n].into();
        let eos = if r.chance(1, 3) { Eos::with_remaining_bytes(ByteCount::Finite(r.below(300))) } else { Eos::new(r.chance(1, 8)) };
        let out = guard(|| {
            let x = e.requiring_bytes();
            if e.is_idle() || r.chance(1, 12) {
                match items.pop() {
                    Some(v) => (x, kind(e.start_encoding(v)).map(|_| 0)),
                    None => (x, Ok(usize::MAX)),
                }
            } else {
                (x, kind(e.encode(&mut seg, eos)))
            }
        });
        g.add(&out);
        match &out {
            Some((_, Ok(k))) if *k <= n => g.add(&&seg[..*k]),
            Some((_, Ok(_))) => break,
            _ => {
                bad += 1;
                if bad > 3 {
                    break;
                }
            }
        }
    }
}

fn decode(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, size) = case_shape(c, &mut r);
    let hostile = r.chance(1, 3);
    let b = some_stream(&s, &mut r, size, hostile);
    let top = if r.bool() { 6 } else { 60 };
    let calls = 1 + r.us(top);
    let panics = c.stage.contains("panic");
    let seed = r.u64();
    let mut n = 0;
    if panics {
        mon::reset(0);
        mon::with(|t| t.panic_at = Some(1 << 40));
        let mut d = mk::dec(&s);
        history_dec(&mut d, &b, calls, &mut Rng::new(seed), &mut Dig(0));
        n = mon::with(|t| (1 << 40) - t.panic_at.unwrap_or(1 << 40));
    }
    let mut rounds: Vec<Option<u64>> = vec![None];
    if panics {
        rounds = (0..n.min(8)).map(|i| Some(if n <= 8 { i } else { r.below(n) })).collect();
    }
    for at in rounds {
        let what = || format!("{:?} on {}, {} calls, panic in component call {:?}", s, brief(&b), calls, at);
        let mut hit = 0;
        let ok = measured(c, &what, &mut |_| {
            mon::with(|t| t.panic_at = at);
            let mut g = Dig(0);
            let mut d = if panics { mk::dec(&s) } else { mk::dec_bare(&s) };
            history_dec(&mut d, &b, calls, &mut Rng::new(seed), &mut g);
            drop(d);
            hit += mon::calls_of("panics_injected");
            g.0
        });
        c.add("panics_injected", hit);
        c.eval(Some(hash_of(&(&s, &b, calls, at, seed))));
        if !ok {
            return;
        }
    }
    c.sample(|| format!("{:?} abandoned after {} calls", s, calls));
}
fn encode(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, size) = if c.stage.starts_with("catalogue") {
        case_shape(c, &mut r)
    } else {
        let size = *r.pick(&[3usize, 9, 30, 90]);
        (enc_shape(&mut r, size), size)
    };
    let items: Vec<Value> = (0..1 + r.us(3)).filter_map(|_| gen_value(&s, &mut r, size)).collect();
    if items.is_empty() {
        return;
    }
    let top = if r.bool() { 6 } else { 60 };
    let calls = 1 + r.us(top);
    let panics = c.stage.contains("panic");
    let sized = s.sized() && r.bool();
    let seed = r.u64();
    let run = |g: &mut Dig| {
        if sized {
            let mut d = mk::senc_with(&s, panics);
            history_enc(&mut d, items.clone(), calls, &mut Rng::new(seed), g);
        } else {
            let mut d = mk::enc_with(&s, panics);
            history_enc(&mut d, items.clone(), calls, &mut Rng::new(seed), g);
        }
    };
    let mut n = 0;
    if panics {
        mon::reset(0);
        mon::with(|t| t.panic_at = Some(1 << 40));
        run(&mut Dig(0));
        n = mon::with(|t| (1 << 40) - t.panic_at.unwrap_or(1 << 40));
    }
    let mut rounds: Vec<Option<u64>> = vec![None];
    if panics {
        rounds = (0..n.min(8)).map(|i| Some(if n <= 8 { i } else { r.below(n) })).collect();
    }
    for at in rounds {
        let what = || format!("{:?} encoding {}, {} calls, panic in component call {:?}", s, bdbg(&items), calls, at);
        let mut hit = 0;
        let ok = measured(c, &what, &mut |_| {
            mon::with(|t| t.panic_at = at);
            let mut g = Dig(0);
            run(&mut g);
            hit += mon::calls_of("panics_injected");
            g.0
        });
        c.add("panics_injected", hit);
        c.eval(Some(hash_of(&(&s, &items, calls, at, seed))));
        if !ok {
            return;
        }
    }
    c.sample(|| format!("{:?} abandoned after {} calls", s, calls));
}

// ------------------------------------------------------------------------------------------------
// Items that are accounted for one by one.
thread_local! {
    static MADE: Cell<u64> = const { Cell::new(0) };
    static GONE: Cell<u64> = const { Cell::new(0) };
}
pub struct Token(Box<u8>);
fn tick() {
    mon::maybe_panic();
}
impl Token {
    fn new(b: u8) -> Token {
        tick();
        MADE.with(|m| m.set(m.get() + 1));
        Token(Box::new(b))
    }
    fn byte(&self) -> u8 {
        tick();
        *self.0
    }
}
impl Debug for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.0)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        GONE.with(|m| m.set(m.get() + 1));
    }
}
#[derive(Debug, Default)]
struct Bag(Vec<Token>);
impl Extend<Token> for Bag {
    fn extend<I: IntoIterator<Item = Token>>(&mut self, i: I) {
        for x in i {
            tick();
            self.0.push(x);
            tick();
        }
    }
}
struct Source(std::vec::IntoIter<u8>);
impl Iterator for Source {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        tick();
        self.0.next().map(Token::new)
    }
}
#[derive(Debug)]
struct Picky(Token);
impl<'de> serde::Deserialize<'de> for Picky {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = u8::deserialize(d)?;
        Ok(Picky(Token::new(b)))
    }
}
impl serde::Serialize for Picky {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.0.byte())
    }
}
struct Stream<'a>(&'a [u8], usize, Vec<u8>);
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        tick();
        Ok(n)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(self.1);
        self.2.extend_from_slice(&b[..n]);
        tick();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        Ok(())
    }
}
fn tok() -> impl Decode<Item = Token> {
    U8Decoder::new().map(Token::new)
}
fn wide() -> impl Decode<Item = Token> {
    U16beDecoder::new().try_map(|x| if x % 7 == 6 { Err(Mine(ErrorKind::InvalidInput)) } else { Ok(Token::new(x as u8)) })
}
fn etok() -> impl SizedEncode<Item = Token> {
    U8Encoder::new().map_from(|t: Token| t.byte())
}
fn ewide() -> impl SizedEncode<Item = Token> {
    U16leEncoder::new().try_map_from(|t: Token| -> bytecodec::Result<u16> {
        let b = t.byte();
        if b % 7 == 6 {
            return Err(Error::from(Mine(ErrorKind::InvalidInput)));
        }
        Ok(b as u16 * 3)
    })
}
pub const N_STATIC: u64 = 44;
/// One of the compositions whose items are tokens.
fn composition(which: u64, b: &[u8], calls: usize, r: &mut Rng, g: &mut Dig) {
    let k = b.len();
    macro_rules! d {
        ($e:expr) => {{
            let Some(mut d) = guard(|| $e) else { return };
            history_dec(&mut d, b, calls, r, g)
        }};
    }
    macro_rules! e {
        ($e:expr, $mk:expr) => {{
            let Some(mut e) = guard(|| $e) else { return };
            let Some(items) = guard(|| b.iter().take(5).map($mk).collect::<Vec<_>>()) else { return };
            history_enc(&mut e, items, calls, r, g)
        }};
    }
    let t = |x: &u8| Token::new(*x);
    let source = |x: &u8| Source(vec![*x; (*x % 5) as usize].into_iter());
    match which {
        0 => d!(tok().collect::<Vec<_>>()),
        1 => d!(wide().collect::<LinkedList<_>>()),
        2 => d!(tok().collect::<Bag>()),
        3 => d!(wide().collectn::<Bag>(3)),
        4 => d!(TupleDecoder::new((tok(), wide(), tok()))),
        5 => d!(TupleDecoder::new((tok(), wide(), tok(), wide(), tok(), wide(), tok(), wide()))),
        6 => d!(tok().and_then(|t| {
            let n = t.byte() as usize % 4;
            BytesDecoder::new(vec![0; n]).map(move |b| (b.len(), *t.0))
        })),
        7 => d!(tok().and_then(|t| TupleDecoder::new((wide(), tok())).map(move |p| {
            tick();
            (p, *t.0)
        }))),
        8 => d!(wide().map_err(|e: Error| {
            let t = Token::new(1);
            tick();
            drop(t);
            e
        })),
        9 => d!(tok().omit(r.bool())),
        10 => d!(TupleDecoder::new((tok(), wide())).maybe_eos()),
        11 => d!(wide().collect::<Vec<_>>().length(1 + (k as u64) / 2)),
        12 => d!(wide().max_bytes(1 + (k as u64) % 5)),
        13 => d!(TupleDecoder::new((tok(), wide())).peekable()),
        14 => d!({
            let mut s = TupleDecoder::new((tok(), wide())).slice();
            s.set_consumable_bytes(k as u64 / 2);
            s
        }),
        15 => d!(tok().chain(wide()).collectn::<Vec<_>>(2)),
        16 => d!(JsonDecoder::<Vec<Picky>>::new()),
        17 => d!(JsonDecoder::<Picky>::new().length(2)),
        18 => d!(RemainingBytesDecoder::new().map(|v| v.into_iter().map(Token::new).collect::<Vec<_>>())),
        19 => d!(Utf8Decoder::new().map(|s| {
            let t = Token::new(s.len() as u8);
            tick();
            (s, t)
        })),
        20 => d!(Box::new(Box::new(tok()) as Box<dyn Decode<Item = Token>>).collect::<Vec<_>>().length(3)),
        21 => d!(tok().and_then(|t| tok().collectn::<Vec<_>>(t.byte() as usize % 5)).collect::<Vec<_>>()),
        22 => e!(etok(), t),
        23 => e!(ewide(), t),
        24 => e!(etok().repeat::<Source>(), source),
        25 => e!(ewide().repeat::<Source>().length(4), source),
        26 => e!(ewide().repeat::<Source>().pre_encode(), source),
        27 => e!(etok().optional(), |x| x.is_multiple_of(2).then(|| Token::new(*x))),
        28 => e!(TupleEncoder::new((etok(), ewide(), etok())), |x| (Token::new(*x), Token::new(1), Token::new(2))),
        29 => e!(TupleEncoder::new((etok(), etok(), ewide(), etok(), etok(), etok(), etok(), etok())), |x| {
            let n = || Token::new(*x);
            (n(), n(), n(), n(), n(), n(), n(), n())
        }),
        30 => e!(ewide().chain(etok()).map_err(|e: Error| {
            tick();
            e
        }), |x| (Token::new(*x), Token::new(1))),
        31 => e!(ewide().max_bytes(1), t),
        32 => e!(ewide().length(2).slice(), t),
        33 => e!(JsonEncoder::<Vec<Picky>>::new(), |x| vec![Picky(Token::new(*x))]),
        34 => e!(JsonEncoder::<Picky>::new().pre_encode(), |x| Picky(Token::new(*x))),
        35 => e!(NullEncoder.map_from(|_: Token| tick()).repeat::<Source>(), source),
        36 => {
            let Some(e) = guard(|| ewide().last(Token::new(k as u8))) else { return };
            history_enc(&mut { e }, vec![], calls, r, g)
        }
        37 => {
            let mut rb = ReadBuf::new(vec![0; 1 + k % 7]);
            let mut src = Stream(b, 1 + r.us(5), vec![]);
            let mut d = TupleDecoder::new((tok(), wide()));
            for _ in 0..calls {
                g.add(&guard(|| kind(rb.fill(&mut src))));
                g.add(&guard(|| kind(d.decode_from_read_buf(&mut rb))));
                g.add(&guard(|| if d.is_idle() { Some(kind(d.finish_decoding())) } else { None }));
                g.add(&(rb.len(), rb.room(), rb.stream_state().is_normal()));
            }
        }
        38 => {
            let mut wb = WriteBuf::new(vec![0; 1 + k % 7]);
            let mut dst = Stream(&[], 1 + r.us(5), vec![]);
            let mut e = ewide().repeat::<Source>();
            let _ = guard(|| e.start_encoding(source(&(k as u8))));
            for _ in 0..calls {
                g.add(&guard(|| kind(e.encode_to_write_buf(&mut wb))));
                g.add(&guard(|| kind(wb.flush(&mut dst))));
                g.add(&(wb.len(), wb.room()));
            }
            g.add(&dst.2);
        }
        39 => {
            let mut src = Stream(b, 1 + r.us(5), vec![]);
            let mut d = TupleDecoder::new((tok(), wide()));
            for _ in 0..calls.min(5) {
                g.add(&guard(|| kind((&mut d).decode_exact(&mut src))));
            }
        }
        40 => {
            let mut dst = Stream(&[], 1 + r.us(5), vec![]);
            let mut e = ewide().repeat::<Source>();
            for x in b.iter().take(calls.min(5)) {
                g.add(&guard(|| kind(e.start_encoding(source(x)))));
                g.add(&guard(|| kind(e.encode_all(&mut dst))));
            }
            g.add(&dst.2);
        }
        41 => {
            let mut io = BufferedIo::new(Stream(b, 1 + r.us(5), vec![]), 1 + k % 5, 1 + k % 3);
            let mut d = TupleDecoder::new((tok(), wide()));
            let mut e = etok().repeat::<Source>();
            let _ = guard(|| e.start_encoding(source(&(k as u8))));
            for _ in 0..calls {
                g.add(&guard(|| kind(io.execute_io())));
                g.add(&guard(|| kind(d.decode_from_read_buf(io.read_buf_mut()))));
                g.add(&guard(|| if d.is_idle() { Some(kind(d.finish_decoding())) } else { None }));
                g.add(&guard(|| kind(e.encode_to_write_buf(io.write_buf_mut()))));
            }
            g.add(&io.stream_ref().2);
            if r.bool() {
                drop(io.into_stream());
            }
        }
        42 => {
            let mut e = ewide().repeat::<Source>();
            for x in b.iter().take(calls.min(5)) {
                g.add(&guard(|| kind(e.encode_into_bytes(source(x)))));
            }
        }
        _ => {
            let mut d = wide().collectn::<Vec<_>>(2);
            for _ in 0..calls.min(5) {
                g.add(&guard(|| kind((&mut d).decode_from_bytes(b))));
            }
        }
    }
}
fn tokens(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let which = c.idx % N_STATIC;
    let n = r.us(14);
    let b = if which == 16 || which == 17 {
        let t: &[&[u8]] = &[b"[1,2,300]", b"[1,2,3]", b"12", b"[1", b"7 ", b"\xff", b"[]"];
        r.pick(t).to_vec()
    } else {
        r.bytes(n)
    };
    let calls = 1 + r.us(30);
    let seed = r.u64();
    mon::reset(0);
    mon::with(|t| t.panic_at = Some(1 << 40));
    composition(which, &b, calls, &mut Rng::new(seed), &mut Dig(0));
    let n = mon::with(|t| (1 << 40) - t.panic_at.unwrap_or(1 << 40));
    let rounds: Vec<Option<u64>> = [None].into_iter().chain((0..n.min(10)).map(|i| Some(if n <= 10 { i } else { r.below(n) }))).collect();
    for at in rounds {
        let what = || format!("composition {} on {:?}, {} calls, panic at {:?}", which, b, calls, at);
        let mut hit = 0;
        let mut bad = None;
        let mut made = 0;
        let ok = measured(c, &what, &mut |_| {
            MADE.with(|m| m.set(0));
            GONE.with(|m| m.set(0));
            mon::with(|t| t.panic_at = at);
            let mut g = Dig(0);
            composition(which, &b, calls, &mut Rng::new(seed), &mut g);
            hit += mon::calls_of("panics_injected");
            let (m, x) = (MADE.with(|m| m.get()), GONE.with(|m| m.get()));
            made += m;
            if m != x {
                bad = Some((m, x));
            }
            g.0
        });
        if let Some((m, x)) = bad {
            c.fail(format!("{} items were made, {} were dropped [{}]", m, x, what()));
        }
        c.add("panics_injected", hit);
        c.add("items_accounted_for", made);
        c.eval(Some(hash_of(&(which, &b, calls, at, seed))));
        if !ok || bad.is_some() {
            return;
        }
    }
    c.sample(|| format!("composition {}, {} panic points", which, n));
}

/// The executions of all other properties, weighed before and after.
fn everything(c: &mut Ctx) {
    thread_local! {
        static PROPS: Vec<Prop> = others();
        static HEAVY: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) };
    }
    PROPS.with(|props| {
        let flat: Vec<(usize, usize)> = props.iter().enumerate().flat_map(|(i, p)| (0..p.stages.len()).map(move |j| (i, j))).collect();
        let (i, j) = flat[c.idx as usize % flat.len()];
        if HEAVY.with(|h| h.borrow().contains(&(i, j))) {
            c.count("heavy_stages_skipped");
            return;
        }
        let (p, st) = (&props[i], &props[i].stages[j]);
        let total = st.quick.max(1);
        let idx = mix(c.idx) % total;
        let seed = c.idx;
        let start = std::time::Instant::now();
        // behaviour is the other properties' business
        let what = || format!("{} {}#{}", p.id, st.name, idx);
        let mut evals = 0;
        measured(c, &what, &mut |_| {
            if start.elapsed().as_millis() > 300 {
                return 0;
            }
            let x = run::run_case(p, st, idx, seed, false, false);
            evals = x.evals;
            0
        });
        if start.elapsed().as_millis() > 300 {
            HEAVY.with(|h| h.borrow_mut().push((i, j)));
        }
        c.add("executions_of_other_properties", evals);
        c.eval(Some(hash_of(&(i, j, idx, seed))));
        c.sample(what);
    })
}
pub fn others() -> Vec<Prop> {
    super::all().into_iter().filter(|p| p.id != "C27").collect()
}
pub fn c27() -> Prop {
    let n = catalogue().len() as u64;
    Prop {
        id: "C27",
        stages: vec![
            stage("catalogue_decode", 2 * n, 40 * n, decode),
            stage("catalogue_encode", 2 * n, 40 * n, encode),
            stage("decode", 20_000, 600_000, decode),
            stage("encode", 20_000, 600_000, encode),
            stage("panic_decode", 6_000, 200_000, decode),
            stage("panic_encode", 6_000, 200_000, encode),
            stage("tokens", 20_000, 600_000, tokens),
            stage("everything", 10_000, 300_000, everything),
        ],
        rule: "an execution is a history of calls on a composition that is dropped wherever the history ends, with or without a panic in the n-th \
component or closure call, run three times with different junk in fresh and released memory; plus executions of all other properties' workloads; \
distinct by composition, input, history and panic point",
        must: &["memory_balances_checked", "panics_injected", "items_accounted_for", "executions_of_other_properties"],
        level: "exploration",
        findings: vec![],
    }
}

/// How many cases of a stage are chosen for other platforms: most where widths, byte orders and 64-bit numbers matter.
fn platform_weight(p: &Prop, stage: &str) -> u64 {
    match (p.id, stage) {
        (_, "wide") => 8,
        ("C30", _) => 10,
        ("C04", _) | ("C22", _) => 6,
        ("C07" | "C09" | "C10" | "C11" | "C26", _) => 2,
        _ => 1,
    }
}
/// `plan N MAX_US`: prints cases that take at most so long natively. `run FILE SHARD OF SECONDS`: runs the cases of a plan; `judge` also says which fail.
pub fn main(args: &[String]) -> i32 {
    let mut props = others();
    props.insert(0, c27());
    props.push(super::addr::c30());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args[0].as_str() {
        "plan" | "plan-platform" => {
            let platform = args[0] != "plan";
            if platform {
                props.remove(0);
            } else {
                props.pop();
            }
            let n: u64 = args[1].parse().expect("n");
            let max: u128 = args[2].parse().expect("us");
            // round-robin over the stages
            let mut rounds: Vec<Vec<String>> = vec![vec![]; n as usize];
            for p in &props {
                for st in &p.stages {
                    let weight = if platform { platform_weight(p, st.name) } else if p.id == "C27" { 4 } else { 1 };
                    let mut got = 0;
                    let mut slow = 0;
                    for k in 0..6 * n * weight {
                        let idx = if k < 2 { k } else { mix(k ^ mix(seed)) % st.quick.max(1) };
                        let t = std::time::Instant::now();
                        let c = run::run_case(p, st, idx, seed, false, false);
                        if t.elapsed().as_micros() <= max && c.evals > 0 {
                            rounds[got / weight as usize].push(format!("{} {} {}", p.id, st.name, idx));
                            got += 1;
                            if got as u64 == n * weight {
                                break;
                            }
                        } else {
                            slow += 1;
                            if t.elapsed().as_millis() > 100 || slow > 40 + n {
                                break;
                            }
                        }
                    }
                }
            }
            for l in rounds.concat() {
                println!("{}", l);
            }
            0
        }
        "run" | "judge" => {
            let judge = args[0] == "judge";
            let plan = std::fs::read_to_string(&args[1]).expect("plan");
            let (shard, of): (usize, usize) = (args[2].parse().expect("shard"), args[3].parse().expect("of"));
            let secs: f64 = args[4].parse().expect("seconds");
            let t = std::time::Instant::now();
            let (mut cases, mut evals) = (0, 0);
            let mut stages = std::collections::BTreeSet::new();
            for (i, l) in plan.lines().enumerate() {
                if i % of != shard {
                    continue;
                }
                if t.elapsed().as_secs_f64() > secs {
                    break;
                }
                let w: Vec<&str> = l.split(' ').collect();
                let (Some(p), idx) = (props.iter().find(|p| p.id == w[0]), w[2].parse().expect("idx")) else { continue };
                let Some(st) = p.stages.iter().find(|s| s.name == w[1]) else { continue };
                println!("UB-CASE {}", l);
                let c = run::run_case(p, st, idx, seed, false, false);
                for m in c.fails.iter().filter(|_| judge).take(1) {
                    println!("UB-FAIL {}: {}", l, m.replace('\n', " "));
                }
                cases += 1;
                evals += c.evals;
                stages.insert((p.id, st.name));
            }
            println!("UB-DONE cases={} executions={} stages={}", cases, evals, stages.len());
            0
        }
        _ => 2,
    }
}
