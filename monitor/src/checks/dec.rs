//! C01, C05, C08 (decoding), C16, C21, C28: decoders under arbitrary segmentations and inputs.
use super::common::*;
use crate::alloc;

fn drive_one(c: &mut Ctx, s: &Shape, b: &[u8], cuts: &[usize], style: Style, o: DecOpt, course: &Course) -> bool {
    let mut r = Rng::new(c.rng.u64());
    let mut d = mk::dec(s);
    let seen = drive::decode(&mut d, b, cuts, style, &mut r, o);
    let nontrivial = seen.consumed > 0 || !seen.items.is_empty();
    c.eval(if nontrivial { Some(hash_of(&(s, b, cuts, style))) } else { None });
    c.add("items", seen.items.iter().filter(|x| x.0.is_ok()).count() as u64);
    c.add("items_refused", seen.items.iter().filter(|x| x.0.is_err()).count() as u64);
    match seen.end {
        End::Err(_) => c.count("decode_errors"),
        End::Incomplete => c.count("incomplete"),
        _ => {}
    }
    if cuts.len() > 1 {
        c.count("split_executions");
    }
    let what = || format!("{:?} on {} cuts {} {:?}", s, brief(b), bdbg(&cuts), style);
    if course.end == CourseEnd::Ill {
        c.count("outside_specification");
        // whatever the monitors saw there does not count
        mon::take_violations();
    } else if let Some(m) = judge(course, &seen, style) {
        c.fail(format!("{} [{}]", m, what()));
    }
    c.drain(&what);
    nontrivial
}

/// All segmentations of a short stream, under every style.
fn all_cuts(c: &mut Ctx, s: &Shape, b: &[u8], max: usize, cats: u32, poke: bool, limit: usize) {
    let course = course_to_refusal(s, b, max);
    let n = b.len();
    let masks = if n <= 1 { 1u64 } else { 1 << (n - 1) };
    let styles = styles_for(s);
    let step = (masks as usize * styles.len() / limit).max(1);
    let mut k = c.rng.us(step);
    while k < masks as usize * styles.len() {
        let (mask, style) = ((k / styles.len()) as u64, styles[k % styles.len()]);
        let mut cuts = cuts_from_mask(n, mask);
        if poke && c.rng.chance(1, 4) {
            let i = c.rng.us(cuts.len() + 1);
            cuts.insert(i, 0);
        }
        mon::reset(cats);
        if poke {
            let p = Rng::new(c.rng.u64());
            mon::with(|t| t.poke = Some(p));
        }
        drive_one(c, s, b, &cuts, style, DecOpt { max_items: max, poke_idle: poke, stop_on_refusal: true }, &course);
        if !c.fails.is_empty() {
            return;
        }
        k += step;
    }
}
pub fn exhaustive(c: &mut Ctx, cats: u32, poke: bool) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let rounds = if c.thorough { 8 } else { 3 };
    for _ in 0..rounds {
        let mut r = Rng::new(c.rng.u64());
        let mut b = some_stream(&s, &mut r, 8, false);
        if b.len() > 10 && !matches!(s, Shape::Json) {
            let k = 10 - r.us(3);
            if r.chance(2, 3) {
                b.truncate(k);
            }
        }
        let max = if s.reusable() { 1 + r.us(3) } else { 1 };
        if b.len() <= 10 {
            all_cuts(c, &s, &b, max, cats, poke, if c.thorough { 4000 } else { 700 });
        } else {
            sampled(c, &s, &b, max, cats, poke, 60);
        }
        c.sample(|| format!("{:?} on {}", s, brief(&b)));
    }
}
fn sampled(c: &mut Ctx, s: &Shape, b: &[u8], max: usize, cats: u32, poke: bool, n: usize) {
    let course = course_to_refusal(s, b, max);
    let styles = styles_for(s);
    for _ in 0..n {
        let mut r = Rng::new(c.rng.u64());
        let cuts = random_cuts(&mut r, b.len());
        let style = *r.pick(&styles);
        mon::reset(cats);
        if poke {
            mon::with(|t| t.poke = Some(r.clone()));
        }
        drive_one(c, s, b, &cuts, style, DecOpt { max_items: max, poke_idle: poke, stop_on_refusal: true }, &course);
        if !c.fails.is_empty() {
            return;
        }
    }
}
pub fn random(c: &mut Ctx, cats: u32, poke: bool) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[2usize, 6, 20, 60, 300]);
    let s = dec_shape(&mut r, size);
    for _ in 0..3 {
        let b = some_stream(&s, &mut r, size, false);
        let max = max_items(&s, &mut r);
        if b.len() <= 7 {
            all_cuts(c, &s, &b, max, cats, poke, 150);
        } else {
            sampled(c, &s, &b, max, cats, poke, 25);
        }
        c.sample(|| format!("{:?} on {}", s, brief(&b)));
        if !c.fails.is_empty() {
            return;
        }
    }
}
/// Items around the sizes of internal buffers.
pub fn big_shape(r: &mut Rng) -> (Shape, usize) {
    use NumKind::*;
    let n = *r.pick(&[1023usize, 1024, 1025, 2048, 4096, 4097, 65537, 70_000, 131_072, 131_073, 200_000]);
    let fixed = *r.pick(&[1023usize, 1024, 1025, 2048, 4096, 4097, 65537]);
    let k = *r.pick(&[U24be, U32le, U64be]);
    let inner = match r.below(6) {
        0 => Shape::Rest,
        1 => Shape::Utf8,
        2 => Shape::Collect(Shape::Num(U32be).b()),
        3 => Shape::Tuple(vec![Shape::Fixed(fixed.min(1025)), Shape::Rest]),
        4 => Shape::Pad(Some(7)),
        _ => Shape::Collect(Shape::LenPrefix(U16be, Shape::Rest.b()).b()),
    };
    let s = match r.below(8) {
        0 => Shape::Fixed(fixed),
        1 => Shape::OneShot(n),
        2 => Shape::LenPrefix(k, inner.b()),
        3 => inner,
        4 => Shape::Tuple(vec![Shape::Num(U8), Shape::Fixed(fixed), Shape::LenPrefix(k, inner.b())]),
        5 => Shape::Length(n as u64, Shape::Rest.b()),
        6 => Shape::MaxBytes(n as u64, Shape::Rest.b()),
        _ => Shape::CountPrefix(U16le, Shape::LenPrefix(U16be, Shape::Utf8.b()).b()),
    };
    (s, n)
}
fn big_stream(s: &Shape, n: usize, r: &mut Rng) -> Vec<u8> {
    match gen_value(s, r, n).and_then(|v| refm::encode(s, &v).ok()) {
        Some(mut b) => {
            if r.chance(1, 4) {
                let k = b.len() - r.us(b.len().min(3) + 1);
                b.truncate(k);
            }
            if r.chance(1, 4) {
                let k = r.us(3);
                b.extend(r.bytes(k));
            }
            b
        }
        None => vec![7; n + r.us(3)],
    }
}
pub fn big(c: &mut Ctx, cats: u32) {
    let mut r = Rng::new(c.rng.u64());
    let (s, n) = big_shape(&mut r);
    let b = big_stream(&s, n, &mut r);
    let course = course_to_refusal(&s, &b, 1);
    let styles = styles_for(&s);
    for i in 0..4 {
        let cuts = if i == 0 { vec![b.len()] } else { random_cuts(&mut r, b.len()) };
        if cuts.len() > 40_000 {
            continue;
        }
        let style = *r.pick(&styles);
        mon::reset(cats);
        c.max("max_stream_bytes", b.len() as u64);
        drive_one(c, &s, &b, &cuts, style, DecOpt { max_items: 1, stop_on_refusal: true, ..DecOpt::default() }, &course);
    }
    c.sample(|| format!("{:?} on {}", s, brief(&b)));
}

fn c01_ex(c: &mut Ctx) {
    exhaustive(c, 0, false)
}
fn c01_rand(c: &mut Ctx) {
    random(c, 0, false)
}
fn c01_big(c: &mut Ctx) {
    big(c, 0)
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        stages: vec![
            stage("catalogue", 900, 40_000, c01_ex),
            stage("random", 4000, 300_000, c01_rand),
            stage("big", 160, 4000, c01_big),
            stage("huge", 40, 1500, super::huge::dec),
            stage("pairwise", 1500, 60_000, c01_pair),
        ],
        rule: RULE,
        must: &["items", "split_executions", "decode_errors", "incomplete"],
        level: "exploration",
        findings: vec![],
    }
}
/// No model: the same bytes whole and in segments, compared with each other call for call.
fn c01_pair(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let s = dec_shape(&mut r, 40);
    let b = some_stream(&s, &mut r, 40, true);
    if refm::course(&s, &b, 1).end == CourseEnd::Ill {
        return;
    }
    let mut base: Option<String> = None;
    for i in 0..6 {
        let cuts = if i == 0 { vec![b.len()] } else { random_cuts(&mut r, b.len()) };
        let style = *r.pick(&[Style::Last, Style::Exact, Style::Mixed]);
        mon::reset(0);
        let mut d = mk::dec_bare(&s);
        let mut r2 = r.clone();
        let seen = drive::decode(&mut d, &b, &cuts, style, &mut r2, DecOpt { max_items: 1, ..DecOpt::default() });
        c.eval((seen.consumed > 0).then(|| hash_of(&(&s, &b, &cuts, style))));
        let ok = matches!(seen.end, End::Done) && seen.items.first().is_some_and(|x| x.0.is_ok());
        // where an error is noticed may depend on the hints, whether it is may not
        let x = if ok { format!("{:?}", seen.items[0]) } else if matches!(seen.end, End::Incomplete) { "incomplete".into() } else { "error".into() };
        if ok {
            c.count("items");
        }
        match &base {
            None => base = Some(x),
            Some(y) if *y != x => {
                c.fail(format!("segmented: {} whole: {} [{:?} on {} cuts {} {:?}]", bdbg(&x), bdbg(y), s, brief(&b), bdbg(&cuts), style));
                return;
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------- C05
fn c05_ex(c: &mut Ctx) {
    exhaustive(c, mon::PROTO, true)
}
fn c05_rand(c: &mut Ctx) {
    random(c, mon::PROTO, true)
}
fn c05_one_shot(c: &mut Ctx) {
    use bytecodec::bytes::*;
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(9);
    let b = r.bytes(n + 8);
    let mut check = |d: &mut dyn Decode<Item = Value>, what: &str, empty: bool| {
        let mut pos = 0;
        if !empty {
            let mut guard = 0;
            while !d.is_idle() && guard < 100 {
                guard += 1;
                let k = r.us(3).min(b.len() - pos);
                match d.decode(&b[pos..pos + k], Eos::new(false)) {
                    Ok(m) => pos += m,
                    Err(e) => {
                        c.fail(format!("{} of {} bytes failed: {:?}", what, n, e.kind()));
                        return;
                    }
                }
            }
            if kind(d.finish_decoding()).is_err() {
                c.fail(format!("{} of {} bytes: could not be finished", what, n));
                return;
            }
        }
        c.eval(Some(hash_of(&(what, &b, n, empty))));
        for i in 0..4 {
            c.count("terminated_calls");
            let k = r.us(3);
            let e = if i % 2 == 0 { kind(d.decode(&b[..k], Eos::new(r.bool()))).map(|_| ()) } else { kind(d.finish_decoding()).map(|_| ()) };
            if e != Err(ErrorKind::DecoderTerminated) {
                c.fail(format!("{} of {} bytes, item taken: call #{} gave {:?}", what, n, i, e));
            }
            if d.is_idle() && d.requiring_bytes() != ByteCount::Finite(0) {
                c.fail(format!("{}: idle but requires {:?}", what, d.requiring_bytes()));
            }
        }
    };
    mon::reset(mon::PROTO);
    check(&mut BytesDecoder::new(vec![0; n]).map(Value::Bytes), "BytesDecoder", false);
    check(&mut Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; n]).map(|v| v.iter().map(|x| x & 0x7f).collect::<Vec<u8>>())).map(Value::Str), "Utf8Decoder over BytesDecoder", false);
    check(&mut BytesDecoder::<Vec<u8>>::default().map(Value::Bytes), "empty BytesDecoder", true);
    check(&mut BytesDecoder::new(vec![0; n]).map(Value::Bytes).map_err(mon::map_err), "mapped BytesDecoder", false);
    check(&mut Box::new(BytesDecoder::new(vec![0; n])).map(Value::Bytes), "boxed BytesDecoder", false);
    // set_bytes gives it another item
    let mut d = BytesDecoder::new(vec![0u8; n]);
    for round in 0..3 {
        let m = r.us(5);
        if round > 0 {
            d.set_bytes(vec![0; m]);
        }
        let want = if round > 0 { m } else { n };
        let mut pos = 0;
        while !d.is_idle() {
            let k = 1 + r.us(2);
            let e = (pos + k).min(b.len());
            if let ByteCount::Finite(q) = d.requiring_bytes() {
                if q != (want - pos) as u64 {
                    c.fail(format!("BytesDecoder requires {} at {} of {}", q, pos, want));
                }
            }
            match d.decode(&b[pos..e], Eos::new(false)) {
                Ok(x) => pos += x,
                Err(e) => return c.fail(format!("set_bytes: {:?}", e.kind())),
            }
        }
        // a zero-size decoder is idle from the beginning; call decode once anyway
        match kind(d.decode(&b[pos..], Eos::new(false))) {
            Ok(0) => {}
            e => c.fail(format!("complete BytesDecoder consumed {:?}", e)),
        }
        match kind(d.finish_decoding()) {
            Ok(v) if v == b[..want] => {}
            e => c.fail(format!("BytesDecoder after set_bytes({}): {:?}", want, e)),
        }
    }
    c.drain(&|| "one-shot".into());
}
/// Premature finishing on the outermost decoder at every position, and calls while idle.
fn c05_outer(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let s = dec_shape(&mut r, 24);
    let b = some_stream(&s, &mut r, 24, false);
    let course = refm::course(&s, &b, 1);
    if course.end == CourseEnd::Ill {
        return;
    }
    mon::reset(mon::PROTO);
    let mut d = mk::dec_bare(&s);
    let has_len = s.any(&|s| matches!(s, Shape::Length(..) | Shape::LenPrefix(..)));
    let has_max = s.any(&|s| matches!(s, Shape::MaxBytes(..)));
    let what = |m: String| format!("{} [{:?} on {}]", m, s, brief(&b));
    let mut pos = 0;
    let style = *r.pick(&[Style::Last, Style::Exact]);
    for round in 0..4 * b.len() + 20 {
        if d.is_idle() {
            break;
        }
        for _ in 0..r.us(3) {
            c.count("premature_finishes");
            match kind(d.finish_decoding()) {
                Err(ErrorKind::IncompleteDecoding) => {}
                e => return c.fail(what(format!("finishing at {} gave {}", pos, bdbg(&e)))),
            }
        }
        let k = r.us(4).min(b.len() - pos);
        let last = pos + k == b.len();
        let eos = if style == Style::Exact { Eos::with_remaining_bytes(ByteCount::Finite((b.len() - pos - k) as u64)) } else { Eos::new(last && (k > 0 || round > 3)) };
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(n) if n > k || (n < k && !d.is_idle()) => return c.fail(what(format!("consumed {} of {} at {}, idle {}", n, k, pos, d.is_idle()))),
            Ok(n) => pos += n,
            Err(k) => {
                c.count("decode_errors");
                if !matches!(course.end, CourseEnd::Fail(m) if m & bit(k) != 0) {
                    c.fail(what(format!("failed with {:?} at {}, expected {}", k, pos, bdbg(&course))));
                }
                return;
            }
        }
        if last && eos.is_reached() && !d.is_idle() {
            if course.end != CourseEnd::Pending {
                c.fail(what(format!("not idle at the end, expected {}", bdbg(&course))));
            }
            return;
        }
    }
    c.eval(Some(hash_of(&(&s, &b))));
    if !d.is_idle() {
        return;
    }
    for _ in 0..3 {
        // what follows in the stream, or comes in the next one
        let foreign = pos == b.len() || r.bool();
        let k = r.us(4);
        let next = if foreign { r.bytes(k) } else { b[pos..b.len().min(pos + k)].to_vec() };
        match kind(d.decode(&next, Eos::new(r.bool()))) {
            Ok(0) => c.count(if foreign { "other_bytes_while_idle" } else { "calls_while_idle" }),
            // a decoder of a too long region may object
            Err(_) if has_len || has_max => return,
            e => return c.fail(what(format!("decoding while idle gave {:?}", e))),
        }
        if !d.is_idle() {
            return c.fail(what("not idle any more".into()));
        }
    }
    if !has_len && d.requiring_bytes() != ByteCount::Finite(0) {
        return c.fail(what(format!("idle but requires {:?}", d.requiring_bytes())));
    }
    let got = kind(d.finish_decoding());
    c.count("finished");
    let ok = match (&got, course.items.first()) {
        (Ok(a), Some((Ok(b), p, _))) => a == b && *p == pos,
        (Err(k), Some((Err(m), p, _))) => bit(*k) & m != 0 && *p == pos,
        (Err(_), None) => course.end == CourseEnd::Fail(refm::ANY),
        _ => false,
    };
    if !ok {
        c.fail(what(format!("finished at {} with {}, expected {}", pos, bdbg(&got), bdbg(&course))));
    }
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        stages: vec![
            stage("catalogue", 700, 30_000, c05_ex),
            stage("random", 3000, 250_000, c05_rand),
            stage("outer", 30_000, 2_000_000, c05_outer),
            stage("one_shot", 1500, 50_000, c05_one_shot),
        ],
        rule: RULE,
        must: &["premature_finishes", "terminated_calls", "calls_while_idle", "other_bytes_while_idle", "finish_calls", "items"],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C28
fn c28_ex(c: &mut Ctx) {
    exhaustive(c, mon::TRUTH, false)
}
fn c28_rand(c: &mut Ctx) {
    random(c, mon::TRUTH, false)
}
fn c28_big(c: &mut Ctx) {
    big(c, mon::TRUTH)
}
pub fn c28() -> Prop {
    Prop {
        id: "C28",
        stages: vec![
            stage("catalogue", 900, 40_000, c28_ex),
            stage("random", 4000, 300_000, c28_rand),
            stage("big", 80, 2000, c28_big),
            stage("sliced", 4000, 200_000, super::slices::c28_sliced),
            stage("scripted", 4000, 200_000, c28_scripted),
            stage("drivers", 4000, 200_000, c28_drivers),
        ],
        rule: "compositions, inputs and segmentations drawn from the seed; every presented buffer is located in the stream by address, \
and every hint compared with the true end of the component's stream; non-trivial: at least one byte moved",
        must: &["eos_hints_checked", "items", "split_executions", "driver_calls"],
        level: "exploration",
        findings: vec![],
    }
}
/// A component of the user's own that records what it is told; it must see its whole region exactly once.
struct Recorder {
    log: Rc<RefCell<Vec<(Vec<u8>, Eos)>>>,
    need: Option<usize>,
    got: usize,
    done: bool,
}
impl Decode for Recorder {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = match self.need {
            Some(n) => (n - self.got).min(buf.len()),
            None => buf.len(),
        };
        self.got += n;
        self.log.borrow_mut().push((buf.to_vec(), eos));
        self.done = match self.need {
            Some(n) => self.got == n,
            None => eos.is_reached(),
        };
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        self.done = false;
        self.got = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.done {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
}
/// The library's own drivers (read buffers, `decode_exact`, `decode_from_bytes`, write buffers, `encode_all`) are
/// callers too: what they announce must be what the stream did.
fn c28_drivers(c: &mut Ctx) {
    use super::io::Stream;
    use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, StreamState, WriteBuf};
    use std::io::Write;
    let mut r = Rng::new(c.rng.u64());
    let log: Rc<RefCell<Vec<(Vec<u8>, Eos)>>> = Default::default();
    let need = if r.bool() { Some(1 + r.us(60)) } else { None };
    let mut d = Recorder { log: log.clone(), need, got: 0, done: false };
    let mut s = Stream::new(&mut r);
    let cap = *r.pick(&[1usize, 2, 3, 8, 100]);
    let mut rb = ReadBuf::new(vec![0; cap]);
    let mut supplied: Vec<u8> = vec![];
    let mut last = StreamState::Normal;
    let mut at = 0;
    let mut trace = vec![];
    for _ in 0..30 {
        if r.bool() {
            let res = kind(rb.fill(&mut s));
            supplied.append(&mut s.rd.bytes);
            for o in std::mem::take(&mut s.rd.ops) {
                last = o.state();
                trace.push(format!("{:?}", o));
            }
            trace.push(format!("fill {:?}", res));
        } else if !d.done {
            let held = supplied[at..].to_vec();
            if kind(d.decode_from_read_buf(&mut rb)).is_err() {
                return c.fail("a decoder that never fails did".to_string());
            }
            let (buf, eos) = log.borrow().last().cloned().unwrap_or((vec![], Eos::new(false)));
            trace.push(format!("decode {} told {:?}", buf.len(), eos));
            if buf != held {
                return c.fail(format!("the decoder was presented {} while {} is held [{:?}]", brief(&buf), brief(&held), trace));
            }
            let truth = last == StreamState::Eos;
            if eos.is_reached() != truth || !eos.is_reached() && eos.remaining_bytes() != ByteCount::Unknown {
                return c.fail(format!("the decoder was told {:?}, the last operation on the stream left {:?} [{:?}]", eos, last, trace));
            }
            at = supplied.len() - rb.len();
            c.count("eos_hints_checked");
            c.count("driver_calls");
        } else {
            d.finish_decoding().unwrap();
            trace.push("finish".into());
        }
    }
    // decode_exact
    let total = r.us(80);
    let b = r.bytes(total);
    struct Rd<'a>(&'a [u8], Rng, Rc<RefCell<Vec<(usize, usize)>>>);
    impl std::io::Read for Rd<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let k = buf.len().min(self.0.len());
            let k = if k > 1 && self.1.bool() { 1 + self.1.us(k) } else { k };
            buf[..k].copy_from_slice(&self.0[..k]);
            self.0 = &self.0[k..];
            self.2.borrow_mut().push((buf.len(), k));
            Ok(k)
        }
    }
    log.borrow_mut().clear();
    let reads: Rc<RefCell<Vec<(usize, usize)>>> = Default::default();
    let need = if r.bool() { Some(1 + r.us(60)) } else { None };
    let mut d = Recorder { log: log.clone(), need, got: 0, done: false };
    let _ = d.decode_exact(Rd(&b, Rng::new(r.u64()), reads.clone()));
    let mut at = 0;
    for (buf, eos) in log.borrow().iter() {
        if at + buf.len() > total || b[at..at + buf.len()] != buf[..] {
            return c.fail(format!("decode_exact presented {} at {} of {}", brief(buf), at, brief(&b)));
        }
        at += buf.len();
        let ended = at == total && reads.borrow().last().map_or(false, |x| x.1 == 0);
        match eos.remaining_bytes() {
            ByteCount::Finite(n) if n != (total - at) as u64 => return c.fail(format!("decode_exact announced {:?} with {} bytes to come", eos, total - at)),
            ByteCount::Finite(_) if !ended => return c.fail(format!("decode_exact announced {:?} although the reader had not ended", eos)),
            ByteCount::Infinite => return c.fail("decode_exact announced an infinite stream".to_string()),
            _ => {}
        }
        c.count("eos_hints_checked");
    }
    // decode_from_bytes: the whole stream at once, and it ends there
    log.borrow_mut().clear();
    let mut d = Recorder { log: log.clone(), need: None, got: 0, done: false };
    let _ = d.decode_from_bytes(&b);
    let seen: Vec<u8> = log.borrow().iter().flat_map(|x| x.0.clone()).collect();
    if seen != b || log.borrow().last().map_or(true, |x| !x.1.is_reached()) || log.borrow().iter().rev().skip(1).any(|x| x.1.is_reached()) {
        return c.fail(format!("decode_from_bytes presented {:?} for {}", log.borrow(), brief(&b)));
    }
    // the encoding side
    struct Out(Rc<RefCell<Vec<Eos>>>, usize);
    impl Encode for Out {
        type Item = usize;
        fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
            self.0.borrow_mut().push(eos);
            let n = buf.len().min(self.1);
            self.1 -= n;
            buf[..n].fill(7);
            Ok(n)
        }
        fn start_encoding(&mut self, n: usize) -> bytecodec::Result<()> {
            self.1 = n;
            Ok(())
        }
        fn requiring_bytes(&self) -> ByteCount {
            if self.1 == 0 {
                ByteCount::Finite(0)
            } else {
                ByteCount::Unknown
            }
        }
    }
    let told: Rc<RefCell<Vec<Eos>>> = Default::default();
    let mut e = Out(told.clone(), 0);
    let mut wb = WriteBuf::new(vec![0; cap]);
    let mut last = StreamState::Normal;
    let mut s = Stream::new(&mut r);
    let mut trace: Vec<String> = vec![];
    let waker: std::task::Waker = std::task::Waker::noop().clone();
    for _ in 0..30 {
        match r.below(3) {
            0 => {
                let before = wb.len();
                s.expect = std::iter::repeat(7).take(before).collect();
                let _ = wb.flush(&mut s);
                for o in std::mem::take(&mut s.wr.ops) {
                    last = o.state();
                    trace.push(format!("{:?}", o));
                }
            }
            1 if r.chance(1, 3) => {
                let _ = wb.write_all(&[7]);
            }
            _ => {
                if e.1 == 0 {
                    e.start_encoding(1 + r.us(12)).unwrap();
                }
                told.borrow_mut().clear();
                let _ = if r.bool() {
                    e.encode_to_write_buf(&mut wb)
                } else {
                    e.encode_to_write_buf_async(&mut wb, &mut std::task::Context::from_waker(&waker))
                };
                for eos in told.borrow().iter() {
                    trace.push(format!("encode told {:?}", eos));
                    if eos.is_reached() != (last == StreamState::Eos) || !eos.is_reached() && eos.remaining_bytes() != ByteCount::Unknown {
                        return c.fail(format!("the encoder was told {:?}, the last operation on the stream left {:?} [{:?}]", eos, last, trace));
                    }
                    c.count("eos_hints_checked");
                }
            }
        }
    }
    told.borrow_mut().clear();
    let n = 1 + r.us(3000);
    e.start_encoding(n).unwrap();
    let mut out = vec![];
    if e.encode_all(&mut out).is_ok() && out.len() == n {
        for (i, eos) in told.borrow().iter().enumerate() {
            if eos.is_reached() && i + 1 != told.borrow().len() {
                return c.fail(format!("encode_all announced {:?} in call {} of {}", eos, i, told.borrow().len()));
            }
            c.count("eos_hints_checked");
        }
    } else {
        return c.fail(format!("encode_all wrote {} of {} bytes", out.len(), n));
    }
    c.eval(Some(hash_of(&(&b, cap, n))));
    c.sample(|| format!("drivers, buffer of {}, {} bytes", cap, total));
}
fn c28_scripted(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mk_rec = |need| {
        let log = Rc::new(RefCell::new(vec![]));
        (Recorder { log: log.clone(), need, got: 0, done: need == Some(0) }, log)
    };
    let pre = r.us(4);
    let region = r.us(7);
    let post = r.us(4);
    let total = pre + region + post;
    let b = r.bytes(total);
    let (p, plog) = mk_rec(Some(pre));
    let (m, mlog) = mk_rec(None);
    let (q, qlog) = mk_rec(None);
    let mapped = r.bool();
    let mid: Box<dyn Decode<Item = ()>> = if mapped {
        Box::new(m.map(|x| x).map_err(|e: Error| e).peekable().length(region as u64))
    } else {
        Box::new(m.length(region as u64))
    };
    let limit = total as u64 + r.below(3);
    let mut d = p.chain(mid).chain(q).max_bytes(limit);
    let cuts = random_cuts(&mut r, total);
    let style = *r.pick(&[Style::Last, Style::Exact, Style::Mixed, Style::Empty]);
    let mut pos = 0;
    let mut segs = cuts.clone();
    if style == Style::Empty {
        segs.push(0);
    }
    let nseg = segs.len();
    let mut told = vec![];
    for (i, &k) in segs.iter().enumerate() {
        let end = pos + k;
        let left = ByteCount::Finite((total - end) as u64);
        let last = i + 1 == nseg;
        let eos = match style {
            Style::Exact => Eos::with_remaining_bytes(left),
            Style::Mixed if last || r.bool() => Eos::with_remaining_bytes(left),
            _ => Eos::new(last),
        };
        told.push((end, eos));
        if d.is_idle() {
            break;
        }
        match kind(d.decode(&b[pos..end], eos)) {
            Ok(n) => pos += n,
            Err(e) => return c.fail(format!("recorders {}/{}/{} failed with {:?}", pre, region, post, e)),
        }
        if pos != end {
            return c.fail(format!("recorders {}/{}/{} consumed up to {} of {}", pre, region, post, pos, end));
        }
    }
    c.eval(Some(hash_of(&(&b, &cuts, pre, region, style, mapped))));
    c.count("recorded_executions");
    if !d.is_idle() {
        return c.fail(format!("recorders {}/{}/{} not idle at the end", pre, region, post));
    }
    let check = |name: &str, log: &Vec<(Vec<u8>, Eos)>, s: usize, e: usize, limited: bool, c: &mut Ctx| {
        let mut at = s;
        for (buf, eos) in log {
            let n = buf.len().min(e - at);
            if buf[..n] != b[at..at + n] || (buf.len() > n && name != "first") {
                c.fail(format!("{} was presented {:?} at {} of {:?}", name, buf, at, b));
            }
            let end = at + buf.len();
            let truth = if limited { e - end } else { total - end };
            c.count("eos_hints_checked");
            match eos.remaining_bytes() {
                ByteCount::Finite(x) if x != truth as u64 => c.fail(format!("{} was told {:?} with {} bytes to come", name, eos, truth)),
                ByteCount::Infinite => c.fail(format!("{} was told {:?}", name, eos)),
                ByteCount::Unknown if limited => c.fail(format!("{} of a length-delimited region was told {:?}", name, eos)),
                ByteCount::Unknown => {
                    if !told.iter().any(|t| t.0 == end && t.1 == *eos) {
                        c.fail(format!("{} was told {:?} at {}, the caller said {:?}", name, eos, end, told));
                    }
                }
                _ => {}
            }
            at += n;
        }
        if at != e {
            c.fail(format!("{} saw {}..{} instead of {}..{}", name, s, at, s, e));
        }
    };
    check("first", &plog.borrow(), 0, pre, false, c);
    check("region", &mlog.borrow(), pre, pre + region, true, c);
    check("rest", &qlog.borrow(), pre + region, total, false, c);
}

// ---------------------------------------------------------------------------------------------- C08
fn c08_case(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    let Some((v, e)) = enc_item(s, r, size) else { return };
    if e.is_empty() {
        return;
    }
    let plain = !s.eos_delimited() && !s.any(&|s| matches!(s, Shape::TryMap(_) | Shape::MaxBytes(..) | Shape::MaybeEos(_)));
    let cuts_at: Vec<usize> = if e.len() <= 24 { (0..e.len()).collect() } else { (0..12).map(|_| r.us(e.len())).chain([0, 1, e.len() - 1]).collect() };
    for k in cuts_at {
        let b = &e[..k];
        let mut course = course_to_refusal(s, b, 1);
        if plain {
            if let CourseEnd::Fail(_) = course.end {
                // the bytes were those of a valid item, so only the missing ones can be wrong
                if course.items.is_empty() {
                    course.end = CourseEnd::Fail(refm::EOS);
                }
            }
        }
        for style in [Style::Last, Style::Exact, Style::Empty, Style::Mixed] {
            if style == Style::Mixed && r.bool() {
                continue;
            }
            let cuts = random_cuts(r, k);
            mon::reset(0);
            c.count("truncations");
            if matches!(course.end, CourseEnd::Fail(m) if m == refm::EOS) {
                c.count("truncations_expecting_eos");
            }
            if matches!(course.end, CourseEnd::Fail(m) if m == refm::INVALID) {
                c.count("truncations_expecting_invalid");
            }
            drive_one(c, s, b, &cuts, style, DecOpt { max_items: 1, stop_on_refusal: true, ..DecOpt::default() }, &course);
            if !c.fails.is_empty() {
                return;
            }
        }
    }
    c.sample(|| format!("{:?} item {} truncated at every byte", s, bdbg(&v)));
}
fn c08_cat(c: &mut Ctx) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..3 {
        c08_case(c, &s, &mut r, 10);
    }
}
fn c08_rand(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[6usize, 20, 60]);
    let s = dec_shape(&mut r, size);
    c08_case(c, &s, &mut r, size);
}
fn c08_big(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, n) = big_shape(&mut r);
    c08_case(c, &s, &mut r, n);
}
fn c08_enc(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    let Some((v, e)) = enc_item(s, r, size) else { return };
    if e.is_empty() {
        return;
    }
    let mut spaces: Vec<usize> = if e.len() <= 16 { (0..=e.len()).collect() } else { (0..10).map(|_| r.us(e.len())).chain([e.len() - 1, e.len()]).collect() };
    spaces.push(e.len() + 1);
    let sized = s.sized() && r.bool();
    for space in spaces {
        for style in 0..3 {
            mon::reset(0);
            let mut enc: mk::DynEnc = if sized { Box::new(mk::senc_with(s, true)) } else { mk::enc(s) };
            if let Err(k) = kind(enc.start_encoding(v.clone())) {
                return c.fail(format!("{:?} refused {} with {:?}", s, bdbg(&v), k));
            }
            let mut out = vec![];
            let mut end = None;
            let mut cuts = random_cuts(r, space);
            if style == 2 {
                cuts.push(0);
            }
            let n = cuts.len();
            for (i, &k) in cuts.iter().enumerate() {
                let last = i + 1 == n;
                let left = space - out.len() - k;
                let eos = if style == 1 { Eos::with_remaining_bytes(ByteCount::Finite(left as u64)) } else { Eos::new(last) };
                let mut buf = vec![0xa5; k];
                match kind(enc.encode(&mut buf, eos)) {
                    Ok(m) if m > k => return c.fail(format!("{:?} reported {} of {}", s, m, k)),
                    Ok(m) => {
                        out.extend_from_slice(&buf[..m]);
                        if enc.is_idle() {
                            end = Some(Ok(()));
                            break;
                        }
                        if m < k {
                            return c.fail(format!("{:?} left {} of {} unused", s, k - m, k));
                        }
                    }
                    Err(k) => {
                        end = Some(Err(k));
                        break;
                    }
                }
            }
            c.eval(Some(hash_of(&(s, &e, space, &cuts, style))));
            let what = || format!("{:?} item {} ({} bytes) into {} bytes, cuts {:?}, style {}", s, bdbg(&v), e.len(), space, cuts, style);
            match end {
                Some(Ok(())) if space >= e.len() => {
                    c.count("complete_outputs");
                    if out != e {
                        c.fail(format!("wrote {} instead of {} [{}]", brief(&out), brief(&e), what()));
                    }
                }
                Some(Err(ErrorKind::UnexpectedEos)) if space < e.len() => c.count("short_outputs_reported"),
                x => c.fail(format!("ended with {:?} [{}]", x, what())),
            }
            c.drain(&what);
            if !c.fails.is_empty() {
                return;
            }
        }
    }
}
fn c08_enc_cat(c: &mut Ctx) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..2 {
        c08_enc(c, &s, &mut r, 10);
    }
}
fn c08_enc_rand(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[6usize, 20, 60]);
    let s = enc_shape(&mut r, size);
    c08_enc(c, &s, &mut r, size);
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        stages: vec![
            stage("dec_catalogue", 900, 30_000, c08_cat),
            stage("dec_random", 5000, 200_000, c08_rand),
            stage("dec_big", 120, 3000, c08_big),
            stage("enc_catalogue", 900, 30_000, c08_enc_cat),
            stage("enc_random", 5000, 200_000, c08_enc_rand),
            stage("open_end", 2000, 50_000, c08_open),
            stage("enc_typed", 3000, 200_000, super::combs::c08_typed),
            stage("counted", 5000, 200_000, c08_counted),
        ],
        rule: "valid items of drawn compositions, cut off at every (sampled for long items) byte and presented under every way of announcing \
the end; encoders given every too small space; distinct by composition, bytes, cut and schedule",
        must: &["truncations_expecting_eos", "truncations_expecting_invalid", "short_outputs_reported", "complete_outputs", "typed_short_outputs", "missing_elements_reported"],
        level: "exploration",
        findings: vec![],
    }
}
/// A fixed number of elements is missing even if each element by itself tolerates the end before its first byte.
fn c08_counted(c: &mut Ctx) {
    use bytecodec::{bytes::CopyableBytesDecoder, DecodeExt};
    let mut r = Rng::new(c.rng.u64());
    let n = 1 + r.us(5);
    let have = r.us(n);
    let part = if r.bool() { 0 } else { r.us(3) };
    let b = r.bytes(3 * have + part);
    let el = || CopyableBytesDecoder::new([0; 3]).maybe_eos();
    let mut d: Box<dyn Decode<Item = Vec<[u8; 3]>>> = match r.below(3) {
        0 => Box::new(el().collectn(n)),
        1 => Box::new(DecodeExt::map_err(el(), |e: Error| e).collectn(n)),
        _ => {
            let mut s = DecodeExt::slice(el());
            s.set_consumable_bytes(u64::MAX);
            Box::new(s.collectn(n))
        }
    };
    let mut cuts = random_cuts(&mut r, b.len());
    let style = *r.pick(&[Style::Last, Style::Exact, Style::Empty]);
    if style == Style::Empty || cuts.is_empty() {
        cuts.push(0);
    }
    let m = cuts.len();
    let mut pos = 0;
    let mut end = None;
    for (i, &k) in cuts.iter().enumerate() {
        let eos = drive::eos_for(style, &mut r, pos + k, b.len(), i + 1 == m);
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(x) if x == k => pos += k,
            Err(k) if eos.is_reached() => {
                end = Some(k);
                break;
            }
            x => return c.fail(format!("{} of {} elements, {:?} for {} bytes at {}", have, n, x, k, pos)),
        }
    }
    c.eval(Some(hash_of(&(&b, n, &cuts, style))));
    match end {
        Some(ErrorKind::UnexpectedEos) => c.count("missing_elements_reported"),
        x => c.fail(format!("{} of {} elements and {} bytes: {:?} at the end of the stream, cuts {:?} {:?}", have, n, part, x, cuts, style)),
    }
}
/// Parts presented while the end is open must not fail or complete; the announcement alone decides.
fn c08_open(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let s = gen_closed(&mut r, GenOpt { size: 30, depth: 2, decode_only: false, need_reusable: false, big: false });
    let Some((_, e)) = enc_item(&s, &mut r, 30) else { return };
    if e.is_empty() || s.any(&|s| matches!(s, Shape::MaxBytes(..))) {
        return;
    }
    let k = r.us(e.len());
    let mut d = mk::dec(&s);
    mon::reset(0);
    let mut pos = 0;
    for n in random_cuts(&mut r, k) {
        let eos = if r.bool() { Eos::new(false) } else { Eos::with_remaining_bytes(ByteCount::Infinite) };
        match kind(d.decode(&e[pos..pos + n], eos)) {
            Ok(m) if m == n && !d.is_idle() => pos += n,
            x => return c.fail(format!("{:?} on {} of {} bytes: {:?} idle {}", s, pos, e.len(), x, d.is_idle())),
        }
    }
    if d.is_idle() {
        return c.fail(format!("{:?} idle after {} of {} bytes", s, k, e.len()));
    }
    c.eval(Some(hash_of(&(&s, &e, k))));
    match kind(d.decode(&[], Eos::new(true))) {
        Err(ErrorKind::UnexpectedEos) => c.count("announced_ends"),
        x => c.fail(format!("{:?} on {} of {} bytes, end announced: {:?}", s, k, e.len(), x)),
    }
}

// ---------------------------------------------------------------------------------------------- C16
fn c16_case(c: &mut Ctx, s: &Shape, b: &[u8], r: &mut Rng) {
    let cuts = random_cuts(r, b.len());
    let style = *r.pick(&STYLES);
    let max = if s.reusable() { 1 + r.us(6) } else { 1 };
    mon::reset(0);
    let nodes = s.nodes() as u64;
    let mut d = mk::dec_bare(s);
    let base = alloc::live();
    alloc::reset_peak();
    let seen = drive::decode(&mut d, b, &cuts, style, r, DecOpt { max_items: max, ..DecOpt::default() });
    let peak = alloc::peak_over(base) as u64;
    let maxreq = alloc::max_request() as u64;
    let fixed: u64 = fixed_bytes(s);
    let bound = 256 * 1024 + nodes * 160 * 1024 + 600 * b.len() as u64 + 4 * fixed;
    c.eval(Some(hash_of(&(s, b, &cuts, style))));
    c.max("max_peak_bytes", peak);
    c.count("hostile_inputs");
    match &seen.end {
        End::Err(_) => c.count("rejected"),
        End::Done => c.count("completed"),
        End::Incomplete => c.count("left_incomplete"),
        End::Broken(m) => {
            let m = m.clone();
            if refm::course(s, b, max).end != CourseEnd::Ill && !(s.any(&|s| matches!(s, Shape::MaxBytes(..) | Shape::MaybeEos(_)))) {
                c.fail(format!("{} [{:?} on {}]", m, s, brief(b)));
            }
        }
    }
    if peak > bound || maxreq > bound {
        c.fail(format!("used {} bytes (largest request {}) for an input of {} bytes [{:?} on {} cuts {} {:?}]", peak, maxreq, b.len(), s, brief(b), bdbg(&cuts), style));
    }
}
fn fixed_bytes(s: &Shape) -> u64 {
    let own = match s {
        Shape::Fixed(n) | Shape::OneShot(n) | Shape::Utf8N(n) => *n as u64 + 64,
        // serde reserves up to 1 MiB for a sequence of claimed length, here nested twice
        Shape::Bin => 3 << 20,
        _ => 64,
    };
    own + s.children().iter().map(|c| fixed_bytes(c)).sum::<u64>()
}
fn c16_cat(c: &mut Ctx) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..40 {
        let b = some_stream(&s, &mut r, 24, true);
        c16_case(c, &s, &b, &mut r);
        if !c.fails.is_empty() {
            return;
        }
    }
}
fn c16_rand(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 30, 120]);
    let s = dec_shape(&mut r, size);
    for _ in 0..30 {
        let b = some_stream(&s, &mut r, size, true);
        c16_case(c, &s, &b, &mut r);
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?}", s));
}
/// Length and count fields of every width with extreme values in front of little data.
fn c16_fields(c: &mut Ctx) {
    use NumKind::*;
    let mut r = Rng::new(c.rng.u64());
    let k = *r.pick(&[U8, U16be, U16le, U24be, U32be, U32le, U40be, U48le, U56be, U64be, U64le]);
    let inner = match r.below(12) {
        0 | 1 => Shape::Rest,
        2 => Shape::Utf8,
        3 => Shape::Pad(None),
        4 => Shape::Json,
        5 => Shape::Bin,
        6 => Shape::Collect(Shape::Num(U8).b()),
        7 => Shape::Num(U32be),
        8 => Shape::LenPrefix(*r.pick(&[U32be, U64le]), Shape::Rest.b()),
        9 => Shape::Tuple(vec![Shape::Num(U8), Shape::Rest]),
        10 => Shape::MaxBytes(r.edge(), Shape::Rest.b()),
        _ => Shape::Slice(Shape::Peek(Shape::Rest.b()).b()),
    };
    let s = if r.chance(1, 4) && inner.min_size() > 0 && inner.reusable() && !inner.eos_delimited() { Shape::CountPrefix(k, inner.b()) } else { Shape::LenPrefix(k, inner.b()) };
    let s = match r.below(6) {
        0 => Shape::CountPrefix(*r.pick(&[U8, U32be, U64be]), s.b()),
        1 => Shape::Collect(s.b()),
        2 => Shape::Tuple(vec![s.clone(), s]),
        _ => s,
    };
    for _ in 0..20 {
        let mut b = vec![];
        for _ in 0..1 + r.us(4) {
            let v = r.edge() & k.max();
            b.extend(k.to_wire(&Value::U(v)).unwrap());
            let n = r.us(40);
            b.extend(r.bytes(n));
        }
        c16_case(c, &s, &b, &mut r);
        if !c.fails.is_empty() {
            return;
        }
    }
    c.count("field_cases");
}
/// The decoding entry points on hostile input.
fn c16_entry(c: &mut Ctx) {
    use bytecodec::io::{IoDecodeExt, ReadBuf};
    let mut r = Rng::new(c.rng.u64());
    let s = dec_shape(&mut r, 30);
    for _ in 0..10 {
        let b = some_stream(&s, &mut r, 30, true);
        mon::reset(0);
        let base = alloc::live();
        alloc::reset_peak();
        let mut d = mk::dec_bare(&s);
        match r.below(3) {
            0 => {
                let _ = d.decode_from_bytes(&b);
            }
            1 => {
                struct Fuel<'a>(&'a [u8], u32);
                impl std::io::Read for Fuel<'_> {
                    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                        assert!(self.1 < 10_000, "decode_exact keeps reading at the end of the reader");
                        let k = buf.len().min(self.0.len()).min(7);
                        if k == 0 {
                            self.1 += 1;
                        }
                        buf[..k].copy_from_slice(&self.0[..k]);
                        self.0 = &self.0[k..];
                        Ok(k)
                    }
                }
                let _ = d.decode_exact(Fuel(&b, 0));
            }
            _ => {
                let cap = 1 + r.us(8);
                let mut rb = ReadBuf::new(vec![0; cap]);
                let mut src = &b[..];
                for _ in 0..b.len() + 20 {
                    let _ = rb.fill(&mut src);
                    if d.decode_from_read_buf(&mut rb).is_err() || d.is_idle() {
                        break;
                    }
                }
                let _ = d.finish_decoding();
            }
        }
        c.count("entry_point_inputs");
        let peak = alloc::peak_over(base) as u64;
        let bound = 256 * 1024 + s.nodes() as u64 * 160 * 1024 + 600 * b.len() as u64 + 4 * fixed_bytes(&s);
        c.eval(Some(hash_of(&(&s, &b))));
        if peak > bound {
            c.fail(format!("used {} bytes for an input of {} [{:?} on {}]", peak, b.len(), s, brief(&b)));
        }
    }
}
/// Long inputs: memory stays proportional to what was supplied.
fn c16_long(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, _) = big_shape(&mut r);
    let n = *r.pick(&[1usize, 1000, 30_000, 100_000]);
    let mut b = r.bytes(n);
    if r.bool() {
        for x in b.iter_mut().take(9) {
            *x = *r.pick(&[0, 0xff, 0x7f, 1]);
        }
    }
    c16_case(c, &s, &b, &mut r);
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        stages: vec![
            stage("catalogue", 900, 40_000, c16_cat),
            stage("random", 3000, 200_000, c16_rand),
            stage("fields", 3000, 150_000, c16_fields),
            stage("entry", 3000, 100_000, c16_entry),
            stage("long", 300, 6000, c16_long),
        ],
        rule: "malformed, truncated, mutated and arbitrary byte strings with extreme length and count fields, for drawn compositions, \
segmentations and hints; every execution is non-trivial; distinct by (composition, bytes, schedule)",
        must: &["rejected", "completed", "left_incomplete", "field_cases", "entry_point_inputs"],
        level: "exploration",
        findings: vec![("K5", super::probes::k5)],
    }
}

// ---------------------------------------------------------------------------------------------- C21
fn has_hint_ext(s: &Shape) -> bool {
    // the budget of a slice is state that survives items by design
    s.any(&|s| matches!(s, Shape::Slice(_)))
}
fn c21_pair(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 12, 40]);
    let mut s = dec_shape(&mut r, size);
    for _ in 0..20 {
        if s.reusable() && !has_hint_ext(&s) {
            break;
        }
        s = gen_any(&mut r, GenOpt { size, depth: 2, decode_only: true, need_reusable: true, big: false }, true);
    }
    c21_on(c, &s, &mut r, size);
}
fn c21_cat(c: &mut Ctx) {
    let cat: Vec<Shape> = catalogue().into_iter().filter(|s| s.reusable() && !has_hint_ext(s)).collect();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    c21_on(c, &s, &mut r, 8);
}
/// Streams one after the other through one decoder; a fresh decoder shadows each of them.
fn c21_on(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    if !s.reusable() || has_hint_ext(s) {
        return;
    }
    let mut old = mk::dec_bare(s);
    let mut history: Vec<String> = vec![];
    for round in 0..5 {
        let b = if r.chance(3, 4) {
            match enc_item(s, r, size) {
                Some((_, e)) => {
                    let mut e = e;
                    if r.chance(1, 4) && !e.is_empty() {
                        let i = r.us(e.len());
                        e[i] ^= 1 << r.us(8);
                    }
                    e
                }
                None => some_stream(s, r, size, false),
            }
        } else {
            some_stream(s, r, size, false)
        };
        let course = refm::course(s, &b, 1);
        if course.end == CourseEnd::Ill {
            return;
        }
        let cuts = random_cuts(r, b.len());
        let style = *r.pick(&[Style::Last, Style::Exact]);
        let mut fresh = mk::dec_bare(s);
        mon::reset(0);
        let mut pos = 0;
        let mut end = 0;
        let mut finished = false;
        let n = cuts.len();
        let what = || format!("{:?} stream #{} {} cuts {} {:?}, after {}", s, round, brief(&b), bdbg(&cuts), style, bdbg(&history));
        for (i, k) in cuts.iter().enumerate() {
            end += k;
            let left = ByteCount::Finite((b.len() - end) as u64);
            let eos = if style == Style::Exact { Eos::with_remaining_bytes(left) } else { Eos::new(i + 1 == n) };
            if (old.is_idle(), old.requiring_bytes()) != (fresh.is_idle(), fresh.requiring_bytes()) {
                return c.fail(format!("reused: idle {} requires {:?}, fresh: idle {} requires {:?} [{}]", old.is_idle(), old.requiring_bytes(), fresh.is_idle(), fresh.requiring_bytes(), what()));
            }
            if !fresh.is_idle() {
                let (x, y) = (kind(old.decode(&b[pos..end], eos)), kind(fresh.decode(&b[pos..end], eos)));
                if x != y {
                    return c.fail(format!("reused decoder: {:?}, fresh one: {:?} at {} [{}]", x, y, pos, what()));
                }
                match x {
                    Ok(k) => pos += k,
                    Err(_) => {
                        c.count("ended_by_decode_error");
                        return;
                    }
                }
            }
            if old.is_idle() != fresh.is_idle() {
                return c.fail(format!("reused decoder idle {}, fresh one {} at {} [{}]", old.is_idle(), fresh.is_idle(), pos, what()));
            }
            if fresh.is_idle() {
                let (x, y) = (kind(old.finish_decoding()), kind(fresh.finish_decoding()));
                if x != y {
                    return c.fail(format!("reused decoder finished with {}, fresh one with {} [{}]", bdbg(&x), bdbg(&y), what()));
                }
                if y == Err(ErrorKind::IncompleteDecoding) {
                    return;
                }
                c.count(if y.is_ok() { "items_compared" } else { "refusals_compared" });
                history.push(if y.is_ok() { "item".into() } else { format!("refused {:?}", y) });
                finished = true;
                break;
            }
        }
        c.eval((round > 0).then(|| hash_of(&(s, &b, &cuts, style, &history))));
        if !finished {
            return;
        }
    }
    c.sample(|| format!("{:?} after {:?}", s, history));
}
/// Many items of one stream, refusals in between, against the model.
fn c21_course(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 12, 40]);
    let s = gen_any(&mut r, GenOpt { size, depth: 3, decode_only: true, need_reusable: true, big: false }, true);
    if !s.reusable() {
        return;
    }
    let b = match valid_stream(&s, &mut r, 6, size) {
        Some((_, e)) => {
            let mut e = e.concat();
            for _ in 0..r.us(3) {
                if !e.is_empty() {
                    let i = r.us(e.len());
                    e[i] ^= 1 << r.us(8);
                }
            }
            e
        }
        None => some_stream(&s, &mut r, size, true),
    };
    let course = refm::course(&s, &b, 8);
    for _ in 0..4 {
        let cuts = random_cuts(&mut r, b.len());
        let style = *r.pick(&styles_for(&s));
        mon::reset(0);
        drive_one(c, &s, &b, &cuts, style, DecOpt { max_items: 8, poke_idle: false, stop_on_refusal: false }, &course);
        if !c.fails.is_empty() {
            return;
        }
    }
}
pub fn c21() -> Prop {
    Prop {
        id: "C21",
        stages: vec![
            stage("catalogue", 6000, 200_000, c21_cat),
            stage("pairs", 20_000, 800_000, c21_pair),
            stage("course", 8000, 400_000, c21_course),
            stage("typed", 3000, 100_000, super::combs::c21_typed),
        ],
        rule: "streams decoded one after the other by one decoder, each shadowed call for call by a freshly built decoder; non-trivial: at \
least one item (accepted or refused) came before; distinct by composition, bytes, schedule and history",
        must: &["items_compared", "refusals_compared"],
        level: "exploration",
        findings: vec![],
    }
}
