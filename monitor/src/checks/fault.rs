//! C20: errors of components, of user closures and of the I/O surface with their kind.
use super::common::*;
use super::passthru::{Mine, Script};
use crate::drive::DecOpt;
use bytecodec::io::*;
use std::io::{self, Read, Write};
use trackable::error::ErrorKindExt;

fn expected(k: ErrorKind, depth: u64) -> ErrorKind {
    (0..depth).fold(k, |k, _| mon::rotate(k))
}
/// Numbers of calls to hit: all of them if few, else a sample with both ends.
fn targets(n: u64, cap: u64, r: &mut Rng) -> Vec<u64> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..cap / 3).chain(n - cap / 3..n).collect();
    v.extend((0..cap / 3).map(|_| r.below(n)));
    v
}
struct Plan {
    n: u64,
    k: ErrorKind,
}
fn plans(n: u64, cap: u64, r: &mut Rng) -> Vec<Plan> {
    let o = r.below(7);
    targets(n, cap, r).into_iter().enumerate().map(|(i, n)| Plan { n, k: mon::KINDS[(i as u64 + o) as usize % 7] }).collect()
}
fn arm(p: &Plan) {
    mon::reset(mon::FAULT);
    mon::with(|t| {
        t.inject = Some((p.n, p.k));
        t.rotate = true;
    });
}
/// Was the fault reached, and is the outcome the right one?
fn verdict<T: std::fmt::Debug>(c: &mut Ctx, p: &Plan, got: &Result<T, ErrorKind>, what: &dyn Fn() -> String) {
    let (inj, depth, calls) = mon::with(|t| (t.injected, t.injected_depth, t.map_err_calls));
    if inj.is_none() {
        c.count("faults_not_reached");
        return;
    }
    c.count("faults_injected");
    let want = expected(p.k, depth);
    if mon::with(|t| t.genuine) {
        // The component was called after another one had failed: either error may be reported.
        c.count("second_errors");
        if got.is_ok() {
            c.fail(format!("{:?} in component call #{} was swallowed: {} [{}]", p.k, p.n, bdbg(got), what()));
        }
        return;
    }
    match got {
        Err(k) if *k == want => {}
        x => c.fail(format!("{:?} in component call #{} came out as {}, expected the error {:?} [{}]", p.k, p.n, bdbg(x), want, what())),
    }
    let late = mon::with(|t| t.late);
    if calls < depth || (calls > depth && !late) {
        c.fail(format!("{:?} in component call #{}: the error mappings ran {} times instead of {} [{}]", p.k, p.n, calls, depth, what()));
    }
    if depth > 0 {
        c.count("faults_through_map_err");
    }
}

fn dec_shape_of(c: &Ctx, r: &mut Rng) -> (Shape, usize) {
    if c.stage.starts_with("catalogue") {
        let cat = catalogue();
        (cat[c.idx as usize % cat.len()].clone(), 8)
    } else {
        let size = *r.pick(&[3usize, 9, 30]);
        (dec_shape(r, size), size)
    }
}
fn dec_faults(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, size) = dec_shape_of(c, &mut r);
    for _ in 0..2 {
        let hostile = r.chance(1, 4);
        let b = some_stream(&s, &mut r, size, hostile);
        let cuts = random_cuts(&mut r, b.len());
        let style = *r.pick(&styles_for(&s));
        let o = DecOpt { max_items: max_items(&s, &mut r), poke_idle: r.bool(), stop_on_refusal: true };
        let seed = r.u64();
        let what = || format!("{:?} on {} cut {:?} {:?}", s, brief(&b), cuts, style);
        // without faults: the number of calls, and no mapping of errors on success
        mon::reset(0);
        let mut d = mk::dec(&s);
        let seen = drive::decode(&mut d, &b, &cuts, style, &mut Rng::new(seed), o);
        let (n, mapped) = mon::with(|t| (t.calls, t.map_err_calls));
        let clean = matches!(seen.end, End::Done | End::Incomplete) && seen.items.iter().all(|i| i.0.is_ok());
        if clean && mapped != 0 {
            return c.fail(format!("error mappings ran {} times without any error [{}]", mapped, what()));
        }
        if clean {
            c.count("clean_runs_without_mapping");
        }
        for p in plans(n, 40, &mut r) {
            arm(&p);
            let mut d = mk::dec(&s);
            let seen = drive::decode(&mut d, &b, &cuts, style, &mut Rng::new(seed), o);
            let got: Result<String, ErrorKind> = match (&seen.end, seen.items.last()) {
                (End::Err(k), _) => Err(*k),
                (End::Done, Some((Err(k), _))) => Err(*k),
                _ => Ok(bdbg(&seen)),
            };
            verdict(c, &p, &got, &what);
            c.drain(&what);
            c.eval(Some(hash_of(&(&s, &b, p.n, bit(p.k), seed))));
            if !c.fails.is_empty() {
                return;
            }
        }
    }
    c.sample(|| format!("{:?}", s));
}
fn enc_faults(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 9, 30]);
    let s = if c.stage.starts_with("catalogue") {
        let cat = catalogue();
        cat[c.idx as usize % cat.len()].clone()
    } else {
        enc_shape(&mut r, size)
    };
    let Some((v, e)) = enc_item(&s, &mut r, size) else { return };
    let sized = s.sized() && r.bool();
    let k = r.us(3);
    let sizes: Vec<usize> = (0..1 + r.us(4)).map(|_| if k == 0 { 1 + r.us(3) } else { r.us(size + 2) }).collect();
    let style = *r.pick(&[OutStyle::Open, OutStyle::Exact(0), OutStyle::Exact(3), OutStyle::Infinite]);
    let what = || format!("{:?} encoding {} into {:?} {:?} sized {}", s, bdbg(&v), sizes, style, sized);
    let run = |v: &Value| -> Result<String, ErrorKind> {
        fn go<E: Encode<Item = Value>>(mut d: E, v: &Value, sizes: &[usize], style: OutStyle, need: usize) -> Result<String, ErrorKind> {
            for _ in 0..2 {
                kind(d.start_encoding(v.clone()))?;
                let x = drive::encode(&mut d, sizes, style, need);
                x.end?;
                if let Some(m) = x.broken {
                    return Ok(m);
                }
            }
            Ok("success".into())
        }
        if sized {
            go(mk::senc_with(&s, true), v, &sizes, style, e.len())
        } else {
            go(mk::enc_with(&s, true), v, &sizes, style, e.len())
        }
    };
    mon::reset(0);
    let first = run(&v);
    let (n, mapped) = mon::with(|t| (t.calls, t.map_err_calls));
    if first.is_ok() && mapped != 0 {
        return c.fail(format!("error mappings ran {} times without any error [{}]", mapped, what()));
    }
    for p in plans(n, 60, &mut r) {
        arm(&p);
        let got = run(&v);
        verdict(c, &p, &got, &what);
        c.drain(&what);
        c.eval(Some(hash_of(&(&s, &v, p.n, bit(p.k), &sizes, style))));
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?}", s));
}

struct Short<'a>(&'a [u8], usize);
impl Read for Short<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Component faults seen through the entry points.
fn entry_faults(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 9, 30]);
    if r.bool() {
        let d = r.us(4);
        let s = gen_closed(&mut r, GenOpt { decode_only: true, ..opt(size, d) });
        let Some((_, es)) = valid_stream(&s, &mut r, 1, size) else { return };
        let b = es.concat();
        let how = r.below(3);
        let step = 1 + r.us(9);
        let what = || format!("{:?} on {} by entry point {}", s, brief(&b), how);
        let run = || -> Result<Value, ErrorKind> {
            let mut d = mk::dec(&s);
            match how {
                0 => kind(d.decode_exact(Short(&b, step))),
                1 => kind(d.decode_from_bytes(&b)),
                _ => {
                    let mut rb = ReadBuf::new(vec![0; step]);
                    let mut src = Short(&b, step);
                    for _ in 0..4 * b.len() + 20 {
                        if d.is_idle() {
                            break;
                        }
                        kind(rb.fill(&mut src))?;
                        kind(d.decode_from_read_buf(&mut rb))?;
                    }
                    kind(d.finish_decoding())
                }
            }
        };
        mon::reset(0);
        let _ = run();
        let n = mon::with(|t| t.calls);
        for p in plans(n, 40, &mut r) {
            arm(&p);
            let got = run();
            verdict(c, &p, &got, &what);
            c.drain(&what);
            c.eval(Some(hash_of(&(&s, &b, p.n, bit(p.k), how))));
            c.count("entry_faults");
            if !c.fails.is_empty() {
                return;
            }
        }
    } else {
        let s = enc_shape(&mut r, size);
        let Some((v, _)) = enc_item(&s, &mut r, size) else { return };
        let how = r.below(4);
        let cap = 1 + r.us(9);
        let what = || format!("{:?} encoding {} by entry point {}", s, bdbg(&v), how);
        let run = || -> Result<Vec<u8>, ErrorKind> {
            let mut e = mk::enc_with(&s, true);
            match how {
                0 => {
                    kind(e.start_encoding(v.clone()))?;
                    let mut out = vec![];
                    kind(e.encode_all(&mut out))?;
                    Ok(out)
                }
                1 => kind(e.encode_into_bytes(v.clone())),
                2 => {
                    kind(e.start_encoding(v.clone()))?;
                    let mut wb = WriteBuf::new(vec![0; cap]);
                    let mut out = vec![];
                    for _ in 0..100_000 {
                        if e.is_idle() && wb.is_empty() {
                            break;
                        }
                        kind(e.encode_to_write_buf(&mut wb))?;
                        kind(wb.flush(&mut out))?;
                    }
                    Ok(out)
                }
                _ => {
                    let mut e = e.pre_encode();
                    kind(e.start_encoding(v.clone()))?;
                    let mut out = vec![];
                    kind(e.encode_all(&mut out))?;
                    Ok(out)
                }
            }
        };
        mon::reset(0);
        let _ = run();
        let n = mon::with(|t| t.calls);
        for p in plans(n, 40, &mut r) {
            arm(&p);
            let got = run();
            verdict(c, &p, &got, &what);
            c.drain(&what);
            c.eval(Some(hash_of(&(&s, &v, p.n, bit(p.k), how))));
            c.count("entry_faults");
            if !c.fails.is_empty() {
                return;
            }
        }
    }
    let idx = c.idx;
    c.sample(|| s_name(idx));
}
fn s_name(i: u64) -> String {
    format!("entry point case {}", i)
}

/// `map_err` around a scripted codec: once per error, with the error itself, never on success.
fn map_err(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let seed = r.u64();
    let calls: Rc<RefCell<Vec<ErrorKind>>> = Default::default();
    let calls2: Rc<RefCell<Vec<ErrorKind>>> = Default::default();
    let mut plain = Script::new(seed, true);
    let (k1, k2) = (calls.clone(), calls2.clone());
    let f1 = move |e: Error| {
        k1.borrow_mut().push(*e.kind());
        Mine(mon::rotate(*e.kind()))
    };
    let f2 = move |e: Error| -> Error {
        k2.borrow_mut().push(*e.kind());
        mon::rotate(*e.kind()).cause(e).into()
    };
    let mut wd = DecodeExt::map_err(DecodeExt::map_err(Script::new(seed, true), f1.clone()), f2.clone());
    let mut pe = Script::new(seed, true);
    let mut we = EncodeExt::map_err(EncodeExt::map_err(Script::new(seed, true), f1), f2);
    let data = r.bytes(32);
    let mut buf = r.bytes(32);
    let enc = r.bool();
    for i in 0..40 {
        let n = r.us(32);
        let eos = *r.pick(&[Eos::new(true), Eos::new(false)]);
        let (p, w): (Result<u64, ErrorKind>, Result<u64, ErrorKind>) = match (enc, r.chance(1, 3)) {
            (false, false) => (kind(plain.decode(&data[..n], eos)).map(|x| x as u64), kind(wd.decode(&data[..n], eos)).map(|x| x as u64)),
            (false, true) => (kind(plain.finish_decoding()), kind(wd.finish_decoding())),
            (true, false) => (kind(pe.encode(&mut buf[..n], eos)).map(|x| x as u64), kind(we.encode(&mut buf[..n], eos)).map(|x| x as u64)),
            (true, true) => (kind(pe.start_encoding(i)).map(|_| 0), kind(we.start_encoding(i)).map(|_| 0)),
        };
        let (a, b) = (std::mem::take(&mut *calls.borrow_mut()), std::mem::take(&mut *calls2.borrow_mut()));
        let ok = match &p {
            Ok(_) => w == p && a.is_empty() && b.is_empty(),
            Err(k) => w == Err(expected(*k, 2)) && a == [*k] && b == [mon::rotate(*k)],
        };
        if !ok {
            return c.fail(format!("two error mappings: inner result {:?}, outer {:?}, mappings saw {:?} and {:?}", p, w, a, b));
        }
        c.count(if p.is_ok() { "successes_not_mapped" } else { "errors_mapped_once" });
    }
    c.eval(Some(hash_of(&(seed, enc))));
    c.sample(|| "two nested mappings".into());
}
/// Errors made by the user's conversions, in their own type.
fn closures(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    use bytecodec::fixnum::*;
    let k = *r.pick(&mon::KINDS);
    let bad = r.byte();
    let b = r.bytes(6);
    let mut d = U8Decoder::new().try_map(move |x| if x == bad { Err(Mine(k)) } else { Ok(x) });
    let mut e = U8Encoder::new().try_map_from(move |x: u8| if x == bad { Err(Mine(k)) } else { Ok(x) });
    let mut b = b;
    let i = r.us(6);
    b[i] = bad;
    for &x in &b {
        let want = if x == bad { Err(k) } else { Ok(x) };
        let got = kind(d.decode_from_bytes(&[x]));
        if got != want {
            return c.fail(format!("a conversion of {} failing with {:?} for {} gave {:?}", x, k, bad, got));
        }
        let got = kind(e.encode_into_bytes(x)).map(|b| b[0]);
        if got != want {
            return c.fail(format!("an encoder's conversion of {} failing with {:?} for {} gave {:?}", x, k, bad, got));
        }
    }
    // inside of collections and tuples
    let mut d = U8Decoder::new().try_map(move |x| if x == bad { Err(Mine(k)) } else { Ok(x) }).collect::<Vec<_>>();
    let got = kind(d.decode_from_bytes(&b));
    if got != Err(k) {
        return c.fail(format!("collecting {:?} with a conversion failing with {:?} for {} gave {:?}", b, k, bad, got));
    }
    c.count("conversion_errors");
    c.eval(Some(hash_of(&(&b, bit(k), bad))));
    c.sample(|| format!("{:?} for {}", k, bad));
}

const IO_KINDS: [io::ErrorKind; 22] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
    io::ErrorKind::StorageFull,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::ResourceBusy,
];
fn io_want(k: io::ErrorKind) -> ErrorKind {
    if k == io::ErrorKind::UnexpectedEof {
        ErrorKind::UnexpectedEos
    } else {
        ErrorKind::Other
    }
}
struct Failing {
    good: usize,
    kind: io::ErrorKind,
    step: usize,
    seen: u64,
    os: bool,
}
impl Failing {
    fn next(&mut self, n: usize) -> io::Result<usize> {
        let k = n.min(self.step).min(self.good);
        if k == 0 && n > 0 {
            self.seen += 1;
            return Err(if self.os { io::Error::new(self.kind, "custom") } else { self.kind.into() });
        }
        self.good -= k;
        Ok(k)
    }
}
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.next(b.len())?;
        b[..n].fill(0x31);
        Ok(n)
    }
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.next(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn io_errors(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let k = IO_KINDS[c.idx as usize % IO_KINDS.len()];
    let want = io_want(k);
    let e: Error = io::Error::new(k, "x").into();
    let e2: Error = io::Error::from(k).into();
    if *e.kind() != want || *e2.kind() != want {
        return c.fail(format!("the I/O error {:?} becomes {:?}", k, e.kind()));
    }
    let cause = |e: &Error| e.concrete_cause::<io::Error>().map(|e| e.kind());
    if cause(&e) != Some(k) || cause(&e2) != Some(k) {
        return c.fail(format!("the error made of the I/O error {:?} has the causes {:?}, {:?}", k, cause(&e), cause(&e2)));
    }
    // failures that carry no kind of the crate's own
    let text = format!("reason {}", r.below(1000));
    let f: Error = trackable::error::Failure::from_error(text.clone()).into();
    let g: Error = trackable::error::Failure::from_error(ErrorKind::InvalidInput.error()).into();
    let h: Error = trackable::error::Failure::from(trackable::error::Failed.error()).into();
    if [*f.kind(), *g.kind(), *h.kind()] != [ErrorKind::Other; 3] || !f.to_string().contains(&text) {
        return c.fail(format!("foreign failures become {:?}, {:?}, {:?}", f, g, h));
    }
    let top = if r.chance(1, 5) { 3000 } else { 30 };
    let n = 1 + r.us(top);
    let good = r.us(n);
    let step = 1 + r.us(50);
    let mut f = Failing { good, kind: k, step, seen: 0, os: r.bool() };
    use bytecodec::bytes::*;
    let how = r.below(5);
    let res: bytecodec::Result<()> = match how {
        0 => BytesDecoder::new(vec![0u8; n]).decode_exact(&mut f).map(|_| ()),
        1 => {
            let mut e = BytesEncoder::with_item(vec![9u8; n]).expect("HARNESS");
            e.encode_all(&mut f)
        }
        2 => {
            let mut b = ReadBuf::new(vec![0; n]);
            (0..200).try_for_each(|_| b.fill(&mut f))
        }
        3 => {
            let mut b = WriteBuf::new(vec![0; n]);
            let mut e = BytesEncoder::with_item(vec![9u8; n]).expect("HARNESS");
            kind(e.encode_to_write_buf(&mut b)).expect("HARNESS");
            (0..200).try_for_each(|_| b.flush(&mut f))
        }
        _ => RemainingBytesDecoder::new().decode_exact(&mut f).map(|_| ()),
    };
    let from = res.as_ref().err().and_then(cause);
    let got = kind(res);
    if f.seen == 0 {
        return c.fail(format!("the stream of entry point {} was not used", how));
    }
    if got != Err(want) {
        return c.fail(format!("the I/O error {:?} came out of entry point {} as {:?}", k, how, got));
    }
    if from != Some(k) {
        return c.fail(format!("the error {:?} made of the I/O error {:?} by entry point {} has the cause {:?}", want, k, how, from));
    }
    if f.seen != 1 {
        return c.fail(format!("the I/O error {:?} was met {} times by entry point {}", k, f.seen, how));
    }
    c.count("io_errors_mapped");
    c.eval(Some(hash_of(&(how, good, step, format!("{:?}", k)))));
    c.sample(|| format!("{:?} after {} bytes", k, good));
}
pub fn c20() -> Prop {
    let n = catalogue().len() as u64;
    Prop {
        id: "C20",
        stages: vec![
            stage("catalogue_decode", 2 * n, 40 * n, dec_faults),
            stage("catalogue_encode", 2 * n, 40 * n, enc_faults),
            stage("decode", 5_000, 200_000, dec_faults),
            stage("encode", 5_000, 200_000, enc_faults),
            stage("entry", 4_000, 150_000, entry_faults),
            stage("map_err", 3_000, 50_000, map_err),
            stage("closures", 3_000, 50_000, closures),
            stage("io_errors", 11_000, 110_000, io_errors),
        ],
        rule: "for a composition, an input and a schedule, one run per component call (all of them up to 40, else a sample) in which that call reports an \
error of one of the seven kinds; every enclosing node and the caller must see it, mapped once per error mapping; distinct by case, call and kind",
        must: &[
            "faults_injected", "faults_seen_by_nodes", "faults_through_map_err", "clean_runs_without_mapping", "entry_faults", "errors_mapped_once",
            "successes_not_mapped", "conversion_errors", "io_errors_mapped",
        ],
        level: "fault_enumeration",
        findings: vec![],
    }
}
