//! C09, C10: length-delimited items and byte limits.
use super::common::*;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::padding::*;
use trackable::error::ErrorKindExt;

/// A decoder of `need` bytes (`None`: up to the end of its stream) that records what it is shown.
#[derive(Default)]
struct Probe {
    need: Option<usize>,
    got: Vec<u8>,
    done: bool,
    /// (address, length, hint, consumed)
    calls: Vec<(usize, usize, Eos, usize)>,
}
impl Decode for Probe {
    type Item = Vec<u8>;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.done {
            self.calls.push((b.as_ptr() as usize, b.len(), eos, 0));
            return Ok(0);
        }
        let n = match self.need {
            Some(n) => b.len().min(n - self.got.len()),
            None => b.len(),
        };
        self.calls.push((b.as_ptr() as usize, b.len(), eos, n));
        self.got.extend_from_slice(&b[..n]);
        self.done = match self.need {
            Some(k) => self.got.len() == k,
            None => eos.is_reached(),
        };
        if !self.done && eos.is_reached() {
            return Err(ErrorKind::UnexpectedEos.cause("probe needs more").into());
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> {
        if !self.done {
            return Err(ErrorKind::IncompleteDecoding.cause("probe").into());
        }
        self.done = false;
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.done {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.done
    }
}
/// Region lengths around the interesting sizes.
fn a_len(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1..=3 => r.us(9),
        4 => r.us(60),
        _ => *r.pick(&[255usize, 256, 1024, 1025, 3000]),
    }
}
/// A random way to present b[pos..] up to `end`: (end of the segment, hint).
fn segment(r: &mut Rng, pos: usize, total: usize, style: Style) -> (usize, Eos) {
    let left = total - pos;
    let k = match r.below(5) {
        0 => 0,
        1 => left,
        2 => left.min(1),
        3 => left.min(1 + r.us(6)),
        _ => r.us(left + 1),
    };
    let e = pos + k;
    (e, drive::eos_for(style, r, e, total, e == total))
}
fn c09_probe(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let lens: Vec<usize> = (0..1 + r.us(5)).map(|_| a_len(&mut r)).collect();
    let slack = r.us(5);
    let total: usize = lens.iter().sum::<usize>() + slack;
    let b = r.bytes(total);
    let style = *r.pick(&STYLES);
    let mut d = Probe::default().length(lens[0] as u64);
    let mut pos = 0;
    let mut set = lens[0];
    for (i, &n) in lens.iter().enumerate() {
        let start = pos;
        let what = |m: String| format!("{} [item #{} of lengths {:?} at {} {:?}]", m, i, lens, start, style);
        if set != n || r.chance(1, 4) {
            if let Err(k) = kind(d.set_expected_bytes(n as u64)) {
                return c.fail(what(format!("between items the length cannot be set to {}: {:?}", n, k)));
            }
            c.count("lengths_changed");
            set = n;
        }
        if d.expected_bytes() != n as u64 || d.remaining_bytes() != n as u64 {
            return c.fail(what(format!("expects {} and {} remaining instead of {}", d.expected_bytes(), d.remaining_bytes(), n)));
        }
        // the inner item: exactly, fewer, more, or up to the end of the region
        let need = match r.below(6) {
            0 | 1 => None,
            2 if n > 0 && i + 1 == lens.len() => Some(r.us(n)),
            3 if i + 1 == lens.len() => Some(n + 1 + r.us(3)),
            _ => Some(n),
        };
        d.inner_mut().need = need;
        let start = pos;
        let outcome = loop {
            let (e, eos) = segment(&mut r, pos, total, style);
            d.inner_mut().calls.clear();
            let res = kind(d.decode(&b[pos..e], eos));
            c.count("calls");
            for &(p, l, h, _) in &d.inner_ref().calls {
                let at = p.wrapping_sub(b.as_ptr() as usize);
                c.count("inner_calls_observed");
                if l > 0 && at != pos {
                    return c.fail(what(format!("the inner decoder was shown position {} instead of {}", at, pos)));
                }
                if pos + l > start + n {
                    return c.fail(what(format!("the inner decoder was shown {} bytes at {}, its region ends at {}", l, pos, start + n)));
                }
                let left = (start + n - pos - l) as u64;
                if h.remaining_bytes() != ByteCount::Finite(left) {
                    return c.fail(what(format!("the inner decoder was told {:?} behind {}, its region ends at {}", h, pos + l, start + n)));
                }
                if l < (e - pos).min(start + n - pos) {
                    return c.fail(what(format!("the inner decoder was shown {} of {} available bytes", l, e - pos)));
                }
            }
            match res {
                Err(k) => break Err(k),
                Ok(k) => {
                    if k > e - pos || pos + k > start + n {
                        return c.fail(what(format!("consumed {} of {} bytes at {}, the region ends at {}", k, e - pos, pos, start + n)));
                    }
                    pos += k;
                    let left = (start + n - pos) as u64;
                    if d.remaining_bytes() != left {
                        return c.fail(what(format!("remaining_bytes() is {} instead of {}", d.remaining_bytes(), left)));
                    }
                    if d.is_idle() {
                        break Ok(());
                    }
                    if pos == start + n {
                        // complete, but not accepted: the inner decoder was told about the end
                        if need.is_some_and(|k| k <= n) || need.is_none() {
                            let told = d.inner_ref().calls.last().is_some_and(|c| c.2.is_reached());
                            if told {
                                return c.fail(what("not idle at the end of its region".into()));
                            }
                        }
                    }
                    if pos > start && left != n as u64 && r.chance(1, 3) {
                        let m = r.below(2000);
                        let x = kind(d.set_expected_bytes(m));
                        if x != Err(ErrorKind::IncompleteDecoding) || d.expected_bytes() != n as u64 || d.remaining_bytes() != left {
                            return c.fail(what(format!("changing the length to {} after {} bytes of an item gave {:?}, {}/{}", m, pos - start, x, d.remaining_bytes(), d.expected_bytes())));
                        }
                        c.count("changes_refused");
                    }
                }
            }
        };
        c.eval((pos > start).then(|| hash_of(&(&lens, i, pos, style, hash_bytes(&b)))));
        match (need, outcome) {
            (Some(k), Ok(())) if k < n => {
                let x = kind(d.finish_decoding());
                if x.is_ok() {
                    return c.fail(what(format!("an inner item of {} bytes was accepted in a region of {}", k, n)));
                }
                c.count("mismatches_refused");
                break;
            }
            (Some(k), Err(e)) if k > n => {
                if e != ErrorKind::UnexpectedEos {
                    return c.fail(what(format!("an inner item of more than {} bytes failed with {:?}", n, e)));
                }
                c.count("mismatches_refused");
                break;
            }
            (_, Ok(())) if need.map_or(true, |k| k == n) => {
                if n > 0 && pos > start && r.chance(1, 3) {
                    // complete, but still the same item
                    let x = kind(d.set_expected_bytes(n as u64 + 1));
                    if x != Err(ErrorKind::IncompleteDecoding) {
                        return c.fail(what(format!("changing the length before finishing gave {:?}", x)));
                    }
                    c.count("changes_refused");
                }
                match kind(d.finish_decoding()) {
                    Ok(v) if v == b[start..start + n] => c.count("regions_decoded"),
                    x => return c.fail(what(format!("finishing gave {}", bdbg(&x)))),
                }
                if pos != start + n {
                    return c.fail(what(format!("consumed up to {} instead of {}", pos, start + n)));
                }
            }
            (need, o) => return c.fail(what(format!("inner item of {:?} bytes in a region of {}: {:?}", need, n, o))),
        }
    }
    c.sample(|| format!("{:?} {:?}", lens, style));
}
/// A stream that ends inside of the region.
fn c09_cut(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = 1 + a_len(&mut r);
    let have = r.us(n);
    let b = r.bytes(have);
    let style = *r.pick(&[Style::Last, Style::Exact, Style::Empty, Style::Mixed]);
    let mut d = Probe { need: if r.bool() { None } else { Some(n) }, ..Default::default() }.length(n as u64);
    let mut pos = 0;
    for _ in 0..4 * have + 80 {
        let (mut e, mut eos) = segment(&mut r, pos, have, style);
        if style == Style::Empty && e == have && pos < have {
            eos = Eos::new(false);
        }
        if e == have && pos == have {
            e = have;
            eos = Eos::new(true);
        }
        match kind(d.decode(&b[pos..e], eos)) {
            Ok(k) => {
                if d.is_idle() || eos.is_reached() {
                    return c.fail(format!("a region of {} bytes was accepted from {} (consumed {}, {:?})", n, have, k, eos));
                }
                pos += k;
            }
            Err(k) => {
                c.eval(Some(hash_of(&(n, have, pos, style))));
                c.count("cut_regions");
                if k != ErrorKind::UnexpectedEos {
                    c.fail(format!("a region of {} bytes cut to {} failed with {:?}", n, have, k));
                }
                return;
            }
        }
    }
    c.count("never_announced");
}
/// Real inner decoders, monitored.
fn c09_real(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 9, 40, 300]);
    let d = r.us(3);
    for _ in 0..4 {
        let inner = if r.chance(2, 3) { gen_region(&mut r, opt(size, d)) } else { gen_closed(&mut r, opt(size, d)) };
        // the contents have the declared length, or not
        let (n, body) = match enc_item(&inner, &mut r, size) {
            Some((_, e)) => {
                let n = match r.below(4) {
                    0 => e.len() as u64 + r.below(3),
                    1 => r.below(e.len() as u64 + 1),
                    _ => e.len() as u64,
                };
                (n, e)
            }
            None => {
                let k = r.us(size);
                (k as u64, r.bytes(k))
            }
        };
        let s = if r.bool() { Shape::Length(n, inner.clone().b()) } else { Shape::Tuple(vec![Shape::Length(n, inner.clone().b()), Shape::Num(NumKind::U8)]) };
        let mut b = body.clone();
        let pad = r.us(4);
        b.extend(r.bytes(pad));
        let course = course_to_refusal(&s, &b, 1);
        if course.end == CourseEnd::Ill {
            c.count("outside_specification");
            continue;
        }
        for _ in 0..8 {
            let cuts = random_cuts(&mut r, b.len());
            let styles = styles_for(&s);
            let style = *r.pick(&styles);
            mon::reset(mon::TRUTH | mon::PROTO);
            let mut dec = mk::dec(&s);
            let seen = drive::decode(&mut dec, &b, &cuts, style, &mut r, DecOpt { max_items: 1, ..Default::default() });
            let what = || format!("{:?} on {} cuts {} {:?}", s, brief(&b), bdbg(&cuts), style);
            if let Some(m) = judge(&course, &seen, style) {
                c.fail(format!("{} [{}]", m, what()));
            }
            c.eval((seen.consumed > 0).then(|| hash_of(&(&s, &b, &cuts, style))));
            c.count(if course.items.first().is_some_and(|x| x.0.is_ok()) { "regions_decoded" } else { "mismatches_refused" });
            c.drain(&what);
            if !c.fails.is_empty() {
                return;
            }
        }
    }
}
/// Encoders: exactly the declared number of bytes, or the right failure.
fn c09_enc(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    macro_rules! run {
        ($new:expr, $gen:expr) => {{
            let mut e = $new.length(0);
            run_len(c, &mut r, &mut e, $gen)
        }};
    }
    match c.idx % 9 {
        0 => run!(BytesEncoder::<Vec<u8>>::new(), &|r, n| {
            let v = r.bytes(n);
            Some((v.clone(), v))
        }),
        1 => run!(Utf8Encoder::<String>::new(), &|r, n| {
            let v = gen_text(r, n);
            Some((v.clone(), v.into_bytes()))
        }),
        2 => run!(U8Encoder::new().chain(BytesEncoder::<Vec<u8>>::new()), &|r, n| {
            let v = r.bytes(n.checked_sub(1)?);
            let k = r.byte();
            Some(((k, v.clone()), [vec![k], v].concat()))
        }),
        3 => run!(U16beEncoder::new().repeat::<std::vec::IntoIter<u16>>(), &|r, n| {
            if n % 2 == 1 {
                return None;
            }
            let v: Vec<u16> = (0..n / 2).map(|_| r.u64() as u16).collect();
            Some((v.clone().into_iter(), v.iter().flat_map(|x| x.to_be_bytes()).collect()))
        }),
        4 => run!(BytesEncoder::<Vec<u8>>::new().optional(), &|r, n| {
            if n == 0 && r.chance(2, 3) {
                // idle as soon as it is started
                return Some((None, vec![]));
            }
            let v = r.bytes(n);
            Some((Some(v.clone()), v))
        }),
        5 => run!(BytesEncoder::<Vec<u8>>::new().pre_encode(), &|r, n| {
            let v = r.bytes(n);
            Some((v.clone(), v))
        }),
        6 => run!(BytesEncoder::<Vec<u8>>::new().length(5).chain(Utf8Encoder::<String>::new()), &|r, n| {
            let v = r.bytes(5);
            let t = gen_text(r, n.checked_sub(5)?);
            Some(((v.clone(), t.clone()), [v, t.into_bytes()].concat()))
        }),
        7 => run!(bytecodec::json_codec::JsonEncoder::<String>::new(), &|r, n| {
            let t: String = (0..n.checked_sub(2)?).map(|_| (b'a' + r.us(26) as u8) as char).collect();
            Some((t.clone(), format!("\"{}\"", t).into_bytes()))
        }),
        // fills its region
        _ => {
            let mut e = PaddingEncoder::new().length(0);
            for i in 0..4 {
                let n = a_len(&mut r);
                if let Err(k) = kind(e.set_expected_bytes(n as u64)) {
                    return c.fail(format!("item #{}: the length cannot be set: {:?}", i, k));
                }
                let p = r.byte();
                if let Err(k) = kind(e.start_encoding(p)) {
                    return c.fail(format!("item #{}: refused with {:?}", i, k));
                }
                let mut out = vec![];
                for _ in 0..n + 60 {
                    if e.is_idle() {
                        break;
                    }
                    let mut b = vec![0; r.us(9)];
                    let left = n - out.len();
                    let eos = if b.len() >= left && r.bool() { Eos::new(true) } else { Eos::new(false) };
                    match kind(e.encode(&mut b, eos)) {
                        Ok(k) => out.extend_from_slice(&b[..k]),
                        Err(k) => return c.fail(format!("padding of {}: {:?} after {}", n, k, out.len())),
                    }
                }
                c.count("regions_encoded");
                c.eval((n > 0).then(|| hash_of(&(n, p))));
                if out != vec![p; n] || !e.is_idle() {
                    return c.fail(format!("padding of {} emitted {}", n, brief(&out)));
                }
            }
        }
    }
}
fn run_len<E: Encode>(c: &mut Ctx, r: &mut Rng, e: &mut Length<E>, gen: &dyn Fn(&mut Rng, usize) -> Option<(E::Item, Vec<u8>)>) {
    let mut trace = vec![];
    // the refusals do not depend on the end of the output being announced
    let open = r.chance(1, 3);
    for i in 0..6 {
        let n = a_len(r);
        let l = match r.below(8) {
            0 | 1 => n + 1 + r.us(4),
            2 => r.us(n + 1),
            3 => 0,
            _ => n,
        };
        let Some((item, want)) = gen(r, l) else { continue };
        let l = want.len();
        trace.push((n, l));
        let what = |m: String| format!("{} [(declared, item) {:?}, item #{}]", m, trace, i);
        if let Err(k) = kind(e.set_expected_bytes(n as u64)) {
            return c.fail(what(format!("between items the length cannot be set: {:?}", k)));
        }
        if e.expected_bytes() != n as u64 || !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) || e.exact_requiring_bytes() != 0 {
            return c.fail(what(format!("idle {} requires {:?} expects {}", e.is_idle(), e.requiring_bytes(), e.expected_bytes())));
        }
        let mut out = vec![];
        let mut res = kind(e.start_encoding(item));
        let mut guard = 0;
        while res.is_ok() && !e.is_idle() {
            guard += 1;
            if guard > 3 * l + 100 {
                return c.fail(what("does not end".into()));
            }
            let left = n.saturating_sub(out.len()) as u64;
            if l == n && (e.requiring_bytes() != ByteCount::Finite(left) || e.exact_requiring_bytes() != left || e.remaining_bytes() != left) {
                return c.fail(what(format!("requires {:?} / {} after {} bytes", e.requiring_bytes(), e.exact_requiring_bytes(), out.len())));
            }
            if !out.is_empty() && out.len() < n && r.chance(1, 4) {
                let m = r.below(3000);
                let x = kind(e.set_expected_bytes(m));
                if x != Err(ErrorKind::IncompleteDecoding) || e.expected_bytes() != n as u64 {
                    return c.fail(what(format!("changing the length after {} bytes gave {:?}", out.len(), x)));
                }
                c.count("changes_refused");
            }
            let k = match r.below(4) {
                0 => r.us(4),
                1 => n + 10,
                2 => (n as u64).saturating_sub(out.len() as u64) as usize,
                _ => r.us(n + 5),
            };
            let mut b = vec![0x99; k];
            let eos = if open {
                Eos::new(false)
            } else if k as u64 >= left && r.bool() {
                Eos::new(true)
            } else {
                match r.below(3) {
                    0 => Eos::with_remaining_bytes(ByteCount::Finite(left.saturating_sub(k as u64) + r.below(3))),
                    _ => Eos::new(false),
                }
            };
            match kind(e.encode(&mut b, eos)) {
                Ok(k) => {
                    if b[k.min(b.len())..].iter().any(|&x| x != 0x99) && out.len() + k >= n {
                        return c.fail(what(format!("touched bytes behind the {} it reported", k)));
                    }
                    out.extend_from_slice(&b[..k.min(b.len())]);
                }
                Err(k) => res = Err(k),
            }
            if out.len() > n {
                return c.fail(what(format!("emitted {} bytes", out.len())));
            }
        }
        c.eval((l > 0).then(|| hash_of(&(n, &want, guard))));
        if want.get(..out.len()) != Some(&out[..]) {
            return c.fail(what(format!("emitted {} instead of {}", brief(&out), brief(&want))));
        }
        match (l.cmp(&n), &res) {
            (std::cmp::Ordering::Equal, Ok(())) => {
                if out != want {
                    return c.fail(what(format!("idle after {} of {} bytes", out.len(), n)));
                }
                c.count("regions_encoded");
            }
            (std::cmp::Ordering::Greater, Err(ErrorKind::UnexpectedEos)) => {
                c.count("too_long_refused");
                return;
            }
            (std::cmp::Ordering::Less, Err(ErrorKind::InvalidInput)) => c.count("too_short_refused"),
            _ => return c.fail(what(format!("ended with {:?} after {} bytes", res, out.len()))),
        }
    }
}
/// Declared lengths far beyond what is ever presented, around the widths of machine words.
fn c09_wide(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let declared = super::slices::huge(&mut r).max(1 << 20);
    let n = r.us(60);
    let b = r.bytes(n);
    // decoding
    let mut d = Probe::default().length(declared);
    let mut pos = 0;
    let what = |m: String, pos: usize| format!("{} [declared {} at {}]", m, declared, pos);
    if r.bool() {
        d = Probe::default().length(0);
        if let Err(k) = kind(d.set_expected_bytes(declared)) {
            return c.fail(what(format!("cannot be declared: {:?}", k), 0));
        }
    }
    let mut guard = 0;
    while guard < 12 {
        guard += 1;
        let left = declared - pos as u64;
        if d.expected_bytes() != declared || d.remaining_bytes() != left || d.requiring_bytes() != ByteCount::Finite(left) || d.is_idle() {
            return c.fail(what(format!("expected {} remaining {} requires {:?} idle {}", d.expected_bytes(), d.remaining_bytes(), d.requiring_bytes(), d.is_idle()), pos));
        }
        let k = r.us(b.len() - pos + 1);
        let behind = left - k as u64;
        let (eos, ok) = match r.below(8) {
            0 => (Eos::with_remaining_bytes(ByteCount::Finite(behind)), true),
            1 => (Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX)), true),
            2 => (Eos::with_remaining_bytes(ByteCount::Finite(behind.saturating_add(r.below(9)))), true),
            3 => (Eos::with_remaining_bytes(ByteCount::Infinite), true),
            // too short
            4 if guard > 3 => (Eos::with_remaining_bytes(ByteCount::Finite(behind - 1 - r.below(3))), false),
            5 if guard > 3 => (Eos::with_remaining_bytes(ByteCount::Finite(behind & 0xffff_ffff)), behind >> 32 == 0),
            6 if guard > 3 => (Eos::new(true), false),
            _ => (Eos::new(false), true),
        };
        d.inner_mut().calls.clear();
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(x) if ok && x == k => {}
            Err(ErrorKind::UnexpectedEos) if !ok => {
                c.count("wide_too_short_refused");
                break;
            }
            x => return c.fail(what(format!("{:?} for {} bytes and {:?}", x, k, eos), pos)),
        }
        c.add("inner_calls_observed", d.inner_ref().calls.len() as u64);
        for &(a, l, e, _) in &d.inner_ref().calls {
            if a != b[pos..].as_ptr() as usize || l != k || e.remaining_bytes() != ByteCount::Finite(behind) {
                return c.fail(what(format!("the inner decoder was shown {} bytes and {:?} instead of {} and {} more", l, e, k, behind), pos));
            }
        }
        pos += k;
    }
    if d.inner_ref().got != b[..pos] {
        return c.fail(what(format!("passed on {} instead of {}", brief(&d.inner_ref().got), brief(&b[..pos])), pos));
    }
    // encoding
    let mut e = BytesEncoder::<Vec<u8>>::new().length(declared);
    let mut out = vec![];
    if let Err(k) = kind(e.start_encoding(b.clone())) {
        return c.fail(what(format!("refused with {:?}", k), 0));
    }
    let mut res = Ok(0);
    let mut guard = 0;
    while res.is_ok() && !e.is_idle() && guard < 500 {
        guard += 1;
        let left = declared - out.len() as u64;
        if e.requiring_bytes() != ByteCount::Finite(left) || e.exact_requiring_bytes() != left || e.remaining_bytes() != left {
            return c.fail(what(format!("encoder: requires {:?} exactly {}", e.requiring_bytes(), e.exact_requiring_bytes()), out.len()));
        }
        let mut o = vec![0; r.us(9)];
        res = kind(e.encode(&mut o, Eos::new(false)));
        if let Ok(k) = res {
            out.extend_from_slice(&o[..k.min(o.len())]);
        }
    }
    c.eval((n > 0).then(|| hash_of(&(declared, &b, guard))));
    c.count("wide_lengths");
    // the bytes of the refusing call are not reported, so only a prefix is known
    if res != Err(ErrorKind::InvalidInput) || b.get(..out.len()) != Some(&out[..]) {
        c.fail(what(format!("encoder: {} and {:?} for {}", brief(&out), res, brief(&b)), out.len()));
    }
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        stages: vec![
            stage("probe", 60_000, 3_000_000, c09_probe),
            stage("cut", 20_000, 600_000, c09_cut),
            stage("real", 10_000, 500_000, c09_real),
            stage("encode", 60_000, 3_000_000, c09_enc),
            stage("wide", 20_000, 1_000_000, c09_wide),
        ],
        rule: RULE,
        must: &[
            "inner_calls_observed", "regions_decoded", "mismatches_refused", "lengths_changed", "changes_refused", "cut_regions",
            "regions_encoded", "too_long_refused", "too_short_refused", "wide_lengths", "wide_too_short_refused",
        ],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C10
/// Inner decoders that take the whole stream.
fn whole(r: &mut Rng, size: usize) -> (Shape, Vec<u8>) {
    let d = r.us(3);
    for _ in 0..20 {
        let s = gen_region(r, opt(size, d));
        if s.any(&|s| matches!(s, Shape::MaxBytes(..))) {
            continue;
        }
        if s.has_pad() {
            let n = r.us(size + 1);
            let b = vec![pad_of(&s).unwrap_or(7); n];
            if matches!(refm::decode(&s, &b), Res::Ok { n: k, .. } if k == b.len()) {
                return (s, b);
            }
            continue;
        }
        if let Some((_, e)) = enc_item(&s, r, size) {
            return (s, e);
        }
    }
    let n = r.us(size + 1);
    (Shape::Rest, r.bytes(n))
}
fn c10_dec(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 8, 30, 300, 2000]);
    let (s, b) = whole(&mut r, size);
    let l = b.len() as u64;
    let want = match refm::decode(&s, &b) {
        Res::Ok { n, item, .. } if n == b.len() => item,
        _ => return,
    };
    for _ in 0..6 {
        let n = match r.below(6) {
            0 => l,
            1 => l.saturating_sub(1),
            2 => l + 1,
            3 => r.below(l + 1),
            4 => u64::MAX - r.below(2),
            _ => l + r.below(1000),
        };
        let style = *r.pick(&[Style::Last, Style::Exact, Style::Empty, Style::Mixed]);
        mon::reset(0);
        let mut d = mk::dec_bare(&s).max_bytes(r.below(50));
        if lim(&d) == n || kind(d.set_max_bytes(n)).is_err() || lim(&d) != n {
            // only a fresh limit below the consumption may be refused
            if lim(&d) != n {
                return c.fail(format!("a fresh decoder refused the limit {}", n));
            }
        }
        let mut limit = n;
        let mut pos = 0;
        let mut trace = vec![];
        let mut guard = 0;
        let res = loop {
            guard += 1;
            if guard > 4 * b.len() + 100 {
                return c.fail(format!("{:?} does not end", s));
            }
            let (e, mut eos) = segment(&mut r, pos, b.len(), style);
            if style == Style::Empty && e > pos {
                eos = Eos::new(false);
            }
            trace.push((e - pos, eos));
            let x = kind(d.decode(&b[pos..e], eos));
            let what = |m: String| format!("{} [{:?} on {} limit {} then {} calls {}]", m, s, brief(&b), n, limit, bdbg(&trace));
            match x {
                Err(k) => break Err(k),
                Ok(k) => {
                    pos += k;
                    if d.consumed_bytes() != pos as u64 {
                        return c.fail(what(format!("consumed_bytes() is {} instead of {}", d.consumed_bytes(), pos)));
                    }
                    c.count("consumption_checked");
                    if pos as u64 > limit {
                        return c.fail(what(format!("consumed {} bytes", pos)));
                    }
                    if d.is_idle() {
                        break Ok(());
                    }
                    if r.chance(1, 6) {
                        // another limit in the middle of the item
                        let m = if r.bool() { r.below(pos as u64 + 3) } else { l + r.below(3) };
                        let x = kind(d.set_max_bytes(m));
                        if m < pos as u64 {
                            if x != Err(ErrorKind::InvalidInput) || lim(&d) != limit {
                                return c.fail(what(format!("the limit {} was set below the consumption {}: {:?}", m, pos, x)));
                            }
                            c.count("limits_refused");
                        } else {
                            if x.is_err() || lim(&d) != m {
                                return c.fail(what(format!("the limit {} was refused at consumption {}: {:?}", m, pos, x)));
                            }
                            limit = m;
                            c.count("limits_changed");
                        }
                    }
                }
            }
        };
        let what = |m: String| format!("{} [{:?} on {} limit {} then {} calls {}]", m, s, brief(&b), n, limit, bdbg(&trace));
        c.eval((pos > 0).then(|| hash_of(&(&s, &b, n, style, hash_of(&bdbg(&trace))))));
        if l > limit {
            if res != Err(ErrorKind::InvalidInput) {
                return c.fail(what(format!("{} bytes gave {:?}", l, res)));
            }
            c.count("too_long_refused");
        } else {
            if res.is_err() {
                return c.fail(what(format!("{} bytes gave {:?}", l, res)));
            }
            let x = kind(d.finish_decoding());
            let ok = match (&x, &want) {
                (Ok(a), Ok(b)) => a == b,
                (Err(k), Err(m)) => bit(*k) & m != 0,
                _ => false,
            };
            if !ok || pos != b.len() {
                return c.fail(what(format!("{} at {}, expected {}", bdbg(&x), pos, bdbg(&want))));
            }
            if d.consumed_bytes() != 0 {
                return c.fail(what(format!("consumed_bytes() is {} after finishing", d.consumed_bytes())));
            }
            c.count("within_limit");
        }
    }
    c.sample(|| format!("{:?} on {}", s, brief(&b)));
}
/// Items one after another; each starts from zero.
fn c10_items(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 8, 40]);
    let d = r.us(3);
    let s = gen_closed(&mut r, GenOpt { need_reusable: true, ..opt(size, d) });
    if !s.reusable() || s.any(&|s| matches!(s, Shape::MaxBytes(..))) || s.has_pad() {
        return;
    }
    let n = 2 + r.us(4);
    let Some((items, encs)) = valid_stream(&s, &mut r, n, size) else { return };
    let limit = encs.iter().map(|e| e.len()).max().unwrap() as u64 + r.below(2);
    mon::reset(0);
    let mut dec = mk::dec_bare(&s).max_bytes(limit);
    for (i, (v, e)) in items.iter().zip(&encs).enumerate() {
        // sometimes an item that is too long for a lower limit (the last one: the decoder is spent)
        let what = |m: String| format!("{} [{:?} item #{} {} limit {}]", m, s, i, brief(e), limit);
        let mut pos = 0;
        let mut guard = 0;
        while !dec.is_idle() || guard == 0 {
            guard += 1;
            if guard > 4 * e.len() + 60 {
                return c.fail(what("does not end".into()));
            }
            let left = e.len() - pos;
            let k = if r.chance(1, 4) { left } else { r.us(left + 1) };
            match kind(dec.decode(&e[pos..pos + k], Eos::new(false))) {
                Ok(x) => pos += x,
                Err(x) => return c.fail(what(format!("failed with {:?} at {}", x, pos))),
            }
            if dec.consumed_bytes() != pos as u64 {
                return c.fail(what(format!("consumed_bytes() is {} instead of {}", dec.consumed_bytes(), pos)));
            }
            c.count("consumption_checked");
            if pos > 0 && r.chance(1, 5) {
                let x = kind(dec.set_max_bytes(pos as u64 - 1));
                if x != Err(ErrorKind::InvalidInput) {
                    return c.fail(what(format!("a limit below the consumption gave {:?}", x)));
                }
                c.count("limits_refused");
            }
            if !dec.is_idle() && r.chance(1, 6) {
                if kind(dec.finish_decoding()) != Err(ErrorKind::IncompleteDecoding) || dec.consumed_bytes() != pos as u64 {
                    return c.fail(what("finishing early disturbed the count".into()));
                }
            }
        }
        if kind(dec.finish_decoding()).as_ref() != Ok(v) || pos != e.len() || dec.consumed_bytes() != 0 {
            return c.fail(what(format!("ended at {} with {} consumed", pos, dec.consumed_bytes())));
        }
        c.count("within_limit");
        c.eval((pos > 0).then(|| hash_of(&(&s, e, i, guard))));
    }
}
fn c10_enc(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[3usize, 8, 30, 300, 1500]);
    let s = if r.bool() { Shape::Rest } else { enc_shape(&mut r, size) };
    if s.has_pad() || s.any(&|s| matches!(s, Shape::MaxBytes(..))) {
        return;
    }
    let sized = r.bool();
    mon::reset(0);
    let mut e = super::enc::build(&s, sized, false).max_bytes(0);
    let mut trace = vec![];
    for i in 0..5 {
        let Some((v, want)) = enc_item(&s, &mut r, size) else { return };
        let l = want.len() as u64;
        let mut n = match r.below(5) {
            0 if i > 1 => l.saturating_sub(1 + r.below(3)),
            1 => l,
            2 => l + 1,
            3 => u64::MAX,
            _ => l + r.below(300),
        };
        trace.push((n, l));
        let tr = trace.clone();
        let what = |m: String| format!("{} [{:?} (limit, item) {:?}, item #{}]", m, s, tr, i);
        if e.consumed_bytes() != 0 || kind(e.set_max_bytes(n)).is_err() || lim(&e) != n {
            return c.fail(what(format!("between items {} bytes are consumed, the limit is {}", e.consumed_bytes(), lim(&e))));
        }
        let mut res = kind(e.start_encoding(v.clone()));
        let mut out = vec![];
        let mut guard = 0;
        while res.is_ok() && !e.is_idle() {
            guard += 1;
            if guard > 3 * want.len() + 100 {
                return c.fail(what("does not end".into()));
            }
            if e.consumed_bytes() != out.len() as u64 {
                return c.fail(what(format!("consumed_bytes() is {} after {} bytes", e.consumed_bytes(), out.len())));
            }
            c.count("consumption_checked");
            match r.below(6) {
                0 => {
                    let m = if r.bool() { r.below(out.len() as u64 + 2) } else { l + r.below(3) };
                    let x = kind(e.set_max_bytes(m));
                    if m < out.len() as u64 {
                        if x != Err(ErrorKind::InvalidInput) || lim(&e) != n {
                            return c.fail(what(format!("the limit {} was set below the consumption {}: {:?}", m, out.len(), x)));
                        }
                        c.count("limits_refused");
                    } else {
                        if x.is_err() || lim(&e) != m {
                            return c.fail(what(format!("the limit {} was refused at consumption {}", m, out.len())));
                        }
                        n = m;
                        c.count("limits_changed");
                    }
                }
                1 => {
                    // an item that is refused meanwhile
                    if let Some((v2, _)) = enc_item(&s, &mut r, 4) {
                        if kind(e.start_encoding(v2)) == Err(ErrorKind::EncoderFull) && e.consumed_bytes() != out.len() as u64 {
                            return c.fail(what("a refused item changed the consumption".into()));
                        }
                    }
                    if e.is_idle() {
                        break;
                    }
                }
                _ => {}
            }
            let mut b = vec![0; if guard > 60 { 64 } else { r.us(7) }];
            let eos = match r.below(3) {
                0 => Eos::with_remaining_bytes(ByteCount::Finite(l)),
                _ => Eos::new(false),
            };
            match kind(e.encode(&mut b, eos)) {
                Ok(k) => out.extend_from_slice(&b[..k]),
                Err(k) => res = Err(k),
            }
            if out.len() as u64 > n {
                return c.fail(what(format!("emitted {} bytes with the limit {}", out.len(), n)));
            }
        }
        c.eval((l > 0).then(|| hash_of(&(&s, &want, n, guard))));
        if l > n {
            if res != Err(ErrorKind::InvalidInput) {
                return c.fail(what(format!("an item of {} bytes with the limit {} gave {:?}", l, n, res)));
            }
            c.count("too_long_refused");
            // the limit is per item: if the refused one is gone (its last bytes exceeded the limit) the next one counts from 0
            let fit = (0..4).find_map(|_| enc_item(&s, &mut r, n as usize).filter(|x| x.1.len() as u64 <= n));
            let Some((v, want)) = fit.filter(|_| e.is_idle()) else { return };
            let mut res = kind(e.start_encoding(v));
            let mut out = vec![];
            let mut guard = 0;
            while res.is_ok() && !e.is_idle() && guard < 3 * want.len() + 100 {
                guard += 1;
                let mut b = vec![0; r.us(7)];
                match kind(e.encode(&mut b, Eos::new(false))) {
                    Ok(k) => out.extend_from_slice(&b[..k]),
                    Err(k) => res = Err(k),
                }
            }
            if res.is_err() || out != want {
                return c.fail(what(format!("{:?} with {} instead of {} after an item that exceeded the limit", res, brief(&out), brief(&want))));
            }
            c.count("items_after_refusal");
            return;
        }
        if res.is_err() || out != want || e.consumed_bytes() != 0 {
            return c.fail(what(format!("{:?} with {} instead of {}, consumed {}", res, brief(&out), brief(&want), e.consumed_bytes())));
        }
        c.count("within_limit");
    }
    c.sample(|| format!("{:?}", s));
}
/// Limits far beyond what is ever presented.
fn c10_wide(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let max = super::slices::huge(&mut r).max(1 << 20);
    let n = 1 + r.us(60);
    let b = r.bytes(n);
    let mut d = RemainingBytesDecoder::new().max_bytes(max);
    if r.bool() {
        d = RemainingBytesDecoder::new().max_bytes(n as u64);
        if let Err(k) = kind(d.set_max_bytes(max)) {
            return c.fail(format!("the limit {} is refused: {:?}", max, k));
        }
    }
    let mut pos = 0;
    for i in 0..8 {
        if lim(&d) != max || d.consumed_bytes() != pos as u64 {
            return c.fail(format!("limit {} consumption {} instead of {} and {}", lim(&d), d.consumed_bytes(), max, pos));
        }
        let k = r.us(n - pos + 1);
        let room = max - pos as u64 - k as u64;
        // what is known to follow counts as well
        let (more, ok) = match r.below(8) {
            0 => (Some(room), true),
            1 => (Some(room.saturating_sub(r.below(9)).max(1)), true),
            2 => (Some(room & !0xffff_ffff).filter(|x| *x != 0), true),
            3 if i > 3 && max < u64::MAX - 100 => (Some(room + 1), false),
            4 if i > 3 && max < u64::MAX - 100 => (Some(u64::MAX), false),
            5 if i > 3 && max < u64::MAX - (1 << 33) => (Some(room + (1 << 32)), false),
            _ => (None, true),
        };
        let eos = more.map_or(Eos::new(false), |m| Eos::with_remaining_bytes(ByteCount::Finite(m)));
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(x) if ok && x == k => {}
            Err(ErrorKind::InvalidInput) if !ok => {
                c.count("limits_refused");
                return;
            }
            x => return c.fail(format!("{:?} for {} bytes and {:?} with the limit {} at {}", x, k, eos, max, pos)),
        }
        pos += k;
    }
    c.eval(Some(hash_of(&(max, &b, pos))));
    match kind(d.decode(&b[pos..], Eos::new(true))) {
        Ok(x) if x == n - pos => {}
        x => return c.fail(format!("{:?} for the rest of {} with the limit {}", x, n, max)),
    }
    if kind(d.finish_decoding()) != Ok(b.clone()) {
        return c.fail(format!("another item with the limit {}", max));
    }
    let mut e = BytesEncoder::<Vec<u8>>::new().max_bytes(max);
    let mut out = vec![];
    let mut ok = kind(e.start_encoding(b.clone())).is_ok();
    while ok && !e.is_idle() && out.len() <= n {
        let mut o = [0; 7];
        let k = 1 + r.us(7);
        match kind(e.encode(&mut o[..k], Eos::new(false))) {
            Ok(x) => out.extend_from_slice(&o[..x.min(7)]),
            Err(_) => ok = false,
        }
    }
    c.count("wide_limits");
    if !ok || out != b {
        c.fail(format!("encoder with the limit {}: {} instead of {}", max, brief(&out), brief(&b)));
    }
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        stages: vec![
            stage("decode", 15_000, 900_000, c10_dec),
            stage("items", 15_000, 700_000, c10_items),
            stage("encode", 20_000, 1_000_000, c10_enc),
            stage("wide", 20_000, 1_000_000, c10_wide),
        ],
        rule: RULE,
        must: &["consumption_checked", "limits_refused", "limits_changed", "too_long_refused", "within_limit", "wide_limits", "items_after_refusal"],
        level: "exploration",
        findings: vec![],
    }
}

fn lim<C>(m: &bytecodec::combinator::MaxBytes<C>) -> u64 {
    m.max_bytes()
}
