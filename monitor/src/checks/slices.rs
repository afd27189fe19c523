//! C11 (budgets and multiplexing), C24 (windows over owned buffers), and the sliced stage of C28.
use super::common::*;
use bytecodec::bytes::*;
use bytecodec::combinator::Slice;
use bytecodec::fixnum::*;
use bytecodec::io::*;
use bytecodec::slice::OwnedSlice;
use bytecodec::tuple::TupleDecoder;
use std::io::{Read, Write};

pub fn huge(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => u64::MAX - r.below(2),
        1 => (1 << 32) + r.below(5),
        2 => (1 << 32) - 1 - r.below(5),
        3 => (1 + r.below(1000)) << 32,
        4 => (1 << *r.pick(&[8u32, 15, 16, 31, 33, 40, 47, 48, 53, 62, 63])) - 1 + r.below(4),
        _ => r.u64() | 1 << 40,
    }
}
fn budget(r: &mut Rng, left: usize) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => r.below(4),
        4 | 5 => r.below(left as u64 + 2),
        6 => left as u64,
        // no upper limit; in particular nothing special happens around the widths of machine words
        _ => huge(r),
    }
}

/// Decodes a stream through a slice with budgets dealt out at random.
fn sliced(c: &mut Ctx, cats: u32, size: usize) {
    let mut r = Rng::new(c.rng.u64());
    let s = dec_shape(&mut r, size);
    let b = some_stream(&s, &mut r, size, false);
    let max = max_items(&s, &mut r);
    let course = course_to_refusal(&s, &b, max);
    if course.end == CourseEnd::Ill {
        return;
    }
    for _ in 0..4 {
        let cuts = random_cuts(&mut r, b.len());
        let style = *r.pick(&styles_for(&s));
        mon::reset(cats);
        mon::with(|t| {
            t.stream = Some((b.as_ptr() as usize, b.len()));
            t.open = style.open();
        });
        let mut d = mk::dec(&s).slice();
        let what = |m: String| format!("{} [sliced {:?} on {} cuts {} {:?}]", m, s, brief(&b), bdbg(&cuts), style);
        if d.consumable_bytes() != 0 || !d.is_suspended() {
            return c.fail(what(format!("a fresh slice has a budget of {}", d.consumable_bytes())));
        }
        let total = b.len();
        let mut segs = vec![];
        let mut a = 0;
        for k in &cuts {
            a += k;
            segs.push(a);
        }
        if style == Style::Empty {
            segs.push(total);
        }
        let mut items = vec![];
        let mut pos = 0;
        let mut presented = 0;
        let mut dealt = 0u64;
        let nseg = segs.len();
        let end = 'out: {
            for (i, &e) in segs.iter().enumerate() {
                presented = e;
                let mut guard = 0;
                loop {
                    guard += 1;
                    if guard > 40 * (e - pos) + 400 {
                        break 'out End::Broken("no progress although the budget was raised".into());
                    }
                    if d.is_suspended() || r.chance(1, 4) {
                        let n = if guard > 100 { 3 } else { budget(&mut r, total - pos) };
                        d.set_consumable_bytes(n);
                        dealt += 1;
                        if d.consumable_bytes() != n || d.is_suspended() != (n == 0) {
                            break 'out End::Broken(format!("budget {} became {} (suspended: {})", n, d.consumable_bytes(), d.is_suspended()));
                        }
                    }
                    let before = d.consumable_bytes();
                    if !d.is_idle() {
                        let eos = drive::eos_for(style, &mut r, e, total, i + 1 == nseg);
                        match kind(d.decode(&b[pos..e], eos)) {
                            Ok(n) => {
                                if n > e - pos || n as u64 > before {
                                    break 'out End::Broken(format!("consumed {} of {} bytes with a budget of {}", n, e - pos, before));
                                }
                                if d.consumable_bytes() != before - n as u64 {
                                    break 'out End::Broken(format!("consumed {} bytes, the budget went from {} to {}", n, before, d.consumable_bytes()));
                                }
                                if d.is_suspended() != (d.consumable_bytes() == 0) {
                                    break 'out End::Broken(format!("suspended {} with a budget of {}", d.is_suspended(), d.consumable_bytes()));
                                }
                                if !d.is_idle() && (n as u64) < before.min((e - pos) as u64) {
                                    break 'out End::Broken(format!("consumed {} of {} with a budget of {} without being idle", n, e - pos, before));
                                }
                                if n as u64 == before && n < e - pos {
                                    c.count("suspensions_inside_segments");
                                }
                                pos += n;
                            }
                            Err(k) => break 'out End::Err(k),
                        }
                    }
                    if d.is_idle() {
                        let it = kind(d.finish_decoding());
                        let stop = it.is_err();
                        if d.consumable_bytes() > before {
                            break 'out End::Broken(format!("finishing raised the budget from {} to {}", before, d.consumable_bytes()));
                        }
                        items.push((it, pos));
                        if items.len() == max || pos == total || stop {
                            break 'out End::Done;
                        }
                    }
                    if pos == e {
                        break;
                    }
                }
            }
            End::Incomplete
        };
        let seen = drive::Seen { items, end, presented, consumed: pos };
        c.eval((pos > 0).then(|| hash_of(&(&s, &b, &cuts, style, dealt))));
        c.add("items", seen.items.len() as u64);
        c.add("budgets_dealt", dealt);
        if let Some(m) = judge(&course, &seen, style) {
            c.fail(what(m));
        }
        c.drain(&|| what(String::new()));
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("sliced {:?} on {}", s, brief(&b)));
}
fn c11_dec(c: &mut Ctx) {
    let n = *c.rng.pick(&[4usize, 12, 40, 300]);
    sliced(c, 0, n)
}
pub fn c28_sliced(c: &mut Ctx) {
    let n = *c.rng.pick(&[4usize, 12, 40]);
    sliced(c, mon::TRUTH, n)
}

/// Encodes through a slice.
fn c11_enc(c: &mut Ctx) {
    enc_sliced(c, false)
}
/// The number of remaining bytes it claims does not depend on the budget.
pub fn c07_sliced(c: &mut Ctx) {
    enc_sliced(c, true)
}
fn enc_sliced(c: &mut Ctx, claims: bool) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 12, 40, 300]);
    let s = enc_shape(&mut r, size);
    if s.any(&|s| matches!(s, Shape::MaxBytes(..) | Shape::Pad(_))) {
        return;
    }
    mon::reset(0);
    if s.sized() && r.bool() {
        enc_sliced_on(c, claims, r, size, &s, mk::senc_with(&s, false).slice(), Some(|e| e.exact_requiring_bytes()))
    } else {
        enc_sliced_on(c, claims, r, size, &s, mk::enc_bare(&s).slice(), None)
    }
}
fn enc_sliced_on<E: Encode<Item = Value>>(c: &mut Ctx, claims: bool, mut r: Rng, size: usize, s: &Shape, mut e: Slice<E>, exact: Option<fn(&Slice<E>) -> u64>) {
    let mut hist: Vec<(u64, usize, usize)> = vec![];
    for i in 0..1 + r.us(3) {
        let Some((v, want)) = enc_item(s, &mut r, size) else { return };
        let what = |m: String, h: &[(u64, usize, usize)]| format!("{} [sliced {:?} item #{} {} (budget, buffer, written): {}]", m, s, i, bdbg(&v), bdbg(&h));
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(what(format!("refused with {:?}", k), &hist));
        }
        let mut out: Vec<u8> = vec![];
        let mut guard = 0;
        let claim = |e: &Slice<E>, out: usize, hist: &[(u64, usize, usize)], c: &mut Ctx| {
            if let Some(n) = exact.filter(|_| claims).map(|f| f(e)) {
                c.count("exact_counts_checked");
                if out as u64 + n != want.len() as u64 {
                    c.fail(what(format!("with a budget of {} exactly {} bytes remain, {} of {} are written", e.consumable_bytes(), n, out, want.len()), hist));
                }
            }
            if let Some(n) = e.requiring_bytes().to_u64().filter(|_| claims) {
                c.count("finite_claims_checked");
                if out as u64 + n != want.len() as u64 {
                    c.fail(what(format!("with a budget of {} it claims {} remaining bytes, {} of {} are written", e.consumable_bytes(), n, out, want.len()), hist));
                }
            }
        };
        claim(&e, 0, &hist, c);
        while !e.is_idle() {
            guard += 1;
            if guard > 40 * want.len() + 400 {
                return c.fail(what("does not end".into(), &hist));
            }
            claim(&e, out.len(), &hist, c);
            if e.is_suspended() || r.chance(1, 4) {
                let n = if guard > 100 { 3 } else { budget(&mut r, want.len().saturating_sub(out.len())) };
                e.set_consumable_bytes(n);
                c.count("budgets_dealt");
            }
            claim(&e, out.len(), &hist, c);
            let before = e.consumable_bytes();
            let k = if guard > 100 { 8 } else { *r.pick(&[0usize, 1, 2, 3, 5, 16, 64]) };
            let mut buf = vec![0xa5; k];
            match kind(e.encode(&mut buf, Eos::new(false))) {
                Ok(n) => {
                    if hist.len() < 40 {
                        hist.push((before, k, n));
                    }
                    if n > k || n as u64 > before || e.consumable_bytes() != before - n as u64 || e.is_suspended() != (e.consumable_bytes() == 0) {
                        return c.fail(what(format!("wrote {} to a buffer of {}, budget {} -> {} (suspended {})", n, k, before, e.consumable_bytes(), e.is_suspended()), &hist));
                    }
                    if !e.is_idle() && (n as u64) < before.min(k as u64) {
                        return c.fail(what(format!("wrote {} to a buffer of {} with a budget of {} without being idle", n, k, before), &hist));
                    }
                    // bytes beyond the budget are none of its business
                    let lim = before.min(k as u64) as usize;
                    if buf[lim..].iter().any(|x| *x != 0xa5) {
                        return c.fail(what(format!("touched the buffer behind its budget of {}", before), &hist));
                    }
                    out.extend_from_slice(&buf[..n]);
                }
                Err(k) => return c.fail(what(format!("failed with {:?}", k), &hist)),
            }
        }
        claim(&e, out.len(), &hist, c);
        c.eval((!want.is_empty()).then(|| hash_of(&(&s, &want, &hist))));
        c.count("items");
        if out != want {
            return c.fail(what(format!("emitted {} instead of {}", brief(&out), brief(&want)), &hist));
        }
    }
    c.sample(|| format!("sliced {:?}: {:?}", s, hist));
}

/// Several streams of items interleaved into one byte sequence, and separated again.
fn c11_mux(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let k = 2 + r.us(3);
    let size = *r.pick(&[4usize, 20, 60]);
    mon::reset(0);
    let mut shapes = vec![];
    while shapes.len() < k {
        let s = gen_closed(&mut r, GenOpt { size, depth: 2, decode_only: false, need_reusable: true, big: false });
        if s.reusable() && !s.has_pad() && s.min_size() > 0 && !s.any(&|s| matches!(s, Shape::MaxBytes(..))) {
            shapes.push(s);
        } else if r.chance(1, 3) {
            shapes.push(Shape::Num(NumKind::U32be));
        }
    }
    struct Src {
        e: Slice<mk::DynEnc>,
        todo: Vec<Value>,
        items: Vec<Value>,
    }
    let mut srcs = vec![];
    for s in &shapes {
        let mut items = vec![];
        for _ in 0..1 + r.us(4) {
            let Some((v, _)) = enc_item(s, &mut r, size) else { return };
            items.push(v);
        }
        let mut todo = items.clone();
        todo.reverse();
        srcs.push(Src { e: mk::enc_bare(s).slice(), todo, items });
    }
    let mut wire: Vec<u8> = vec![];
    let mut frames: Vec<(usize, usize)> = vec![];
    let mut guard = 0;
    loop {
        guard += 1;
        if guard > 100_000 {
            return c.fail(format!("interleaving {:?} does not end", shapes));
        }
        let live: Vec<usize> = (0..k).filter(|&i| !srcs[i].e.is_idle() || !srcs[i].todo.is_empty()).collect();
        if live.is_empty() {
            break;
        }
        let i = *r.pick(&live);
        let n = 1 + r.us(9);
        let src = &mut srcs[i];
        src.e.set_consumable_bytes(n as u64);
        let mut buf = vec![0; 64];
        let mut len = 0;
        // one frame may span items
        loop {
            if src.e.is_idle() {
                let Some(v) = src.todo.pop() else { break };
                if kind(src.e.start_encoding(v)).is_err() {
                    return c.fail(format!("{:?}: item refused", shapes[i]));
                }
                continue;
            }
            if src.e.is_suspended() {
                break;
            }
            match kind(src.e.encode(&mut buf[len..], Eos::new(false))) {
                Ok(0) if !src.e.is_idle() => return c.fail(format!("{:?}: no progress with a budget of {}", shapes[i], src.e.consumable_bytes())),
                Ok(m) => len += m,
                Err(x) => return c.fail(format!("{:?}: {:?}", shapes[i], x)),
            }
        }
        if len > n {
            return c.fail(format!("{:?}: a frame of {} bytes with a budget of {}", shapes[i], len, n));
        }
        wire.extend_from_slice(&buf[..len]);
        frames.push((i, len));
    }
    let mut ds: Vec<_> = shapes.iter().map(|s| (mk::dec_bare(s).slice(), vec![])).collect();
    let mut pos = 0;
    let whole = r.bool();
    for (i, len) in &frames {
        let (d, got): &mut (Slice<mk::DynDec>, Vec<Value>) = &mut ds[*i];
        let end = pos + len;
        d.set_consumable_bytes(*len as u64);
        while !d.is_suspended() {
            // the decoder sees everything behind the frame as well, or the frame only
            let lim = if whole { wire.len() } else { end };
            let cut = if r.bool() { lim } else { pos + r.us(lim - pos + 1) };
            let n = match kind(d.decode(&wire[pos..cut], Eos::new(false))) {
                Ok(n) => n,
                Err(x) => return c.fail(format!("{:?}: decoding failed with {:?} at {}", shapes[*i], x, pos)),
            };
            pos += n;
            if pos > end {
                return c.fail(format!("{:?}: consumed up to {} although its frame ends at {}", shapes[*i], pos, end));
            }
            if d.is_idle() {
                match kind(d.finish_decoding()) {
                    Ok(v) => got.push(v),
                    Err(x) => return c.fail(format!("{:?}: finishing failed with {:?}", shapes[*i], x)),
                }
            } else if n == 0 && cut > pos {
                return c.fail(format!("{:?}: no progress with a budget of {}", shapes[*i], d.consumable_bytes()));
            }
        }
        if pos != end {
            return c.fail(format!("{:?}: suspended at {} although its frame ends at {}", shapes[*i], pos, end));
        }
    }
    c.eval(Some(hash_of(&(&shapes, &wire, &frames))));
    c.count("multiplexed");
    c.add("frames", frames.len() as u64);
    for (i, (_, got)) in ds.iter().enumerate() {
        c.add("items", got.len() as u64);
        if *got != srcs[i].items {
            return c.fail(format!("stream {} ({:?}): {} instead of {}", i, shapes[i], bdbg(got), bdbg(&srcs[i].items)));
        }
    }
    c.sample(|| format!("{:?} in {} frames", shapes, frames.len()));
}
/// Slices inside of other codecs, budgets set through `inner_mut`.
fn c11_nested(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    mon::reset(0);
    let n = r.us(12);
    let body = r.bytes(n);
    let mut wire = vec![];
    let x = r.u64() as u32;
    wire.extend_from_slice(&x.to_be_bytes());
    wire.extend_from_slice(&body);
    let y = r.u64() as u16;
    wire.extend_from_slice(&y.to_le_bytes());
    let tail = 3;
    wire.extend_from_slice(&[9; 3]);
    let mut d = TupleDecoder::new((U32beDecoder::new().slice(), RemainingBytesDecoder::new().slice().length(n as u64), U16leDecoder::new().slice()));
    let mut pos = 0;
    let mut b0 = [0u64; 3];
    let mut guard = 0;
    while !d.is_idle() {
        guard += 1;
        if guard > 2000 {
            return c.fail(format!("tuple of slices does not end (at {} of {})", pos, wire.len()));
        }
        for i in 0..3 {
            if r.chance(1, 3) {
                b0[i] = r.below(4);
                let t = d.inner_mut();
                match i {
                    0 => t.0.set_consumable_bytes(b0[0]),
                    1 => t.1.inner_mut().set_consumable_bytes(b0[1]),
                    _ => t.2.set_consumable_bytes(b0[2]),
                }
            }
        }
        let t = d.inner_mut();
        let before: u64 = t.0.consumable_bytes() + t.1.inner_ref().consumable_bytes() + t.2.consumable_bytes();
        let k = r.us(wire.len() - pos + 1);
        match kind(d.decode(&wire[pos..pos + k], Eos::new(false))) {
            Ok(m) => {
                let t = d.inner_mut();
                let after: u64 = t.0.consumable_bytes() + t.1.inner_ref().consumable_bytes() + t.2.consumable_bytes();
                if before - after != m as u64 {
                    return c.fail(format!("budgets went from {} to {} for {} bytes", before, after, m));
                }
                pos += m;
            }
            Err(x) => return c.fail(format!("tuple of slices failed with {:?} at {}", x, pos)),
        }
    }
    c.eval(Some(hash_of(&(&wire, guard))));
    match kind(d.finish_decoding()) {
        Ok(v) if v == (x, body.clone(), y) && pos == wire.len() - tail => c.count("nested_items"),
        v => c.fail(format!("tuple of slices: {:?} at {} of {}", v, pos, wire.len())),
    }
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        stages: vec![
            stage("decode", 20_000, 1_500_000, c11_dec),
            stage("encode", 20_000, 1_500_000, c11_enc),
            stage("mux", 6000, 400_000, c11_mux),
            stage("nested", 8000, 300_000, c11_nested),
        ],
        rule: "budgets (0, 1, small, exact, beyond 2^63) dealt out at random around drawn compositions, streams, items and buffers; an \
execution is non-trivial if bytes moved; distinct by composition, bytes, schedule and budgets",
        must: &["items", "budgets_dealt", "suspensions_inside_segments", "multiplexed", "nested_items"],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C24
fn window(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = r.us(n + 1);
    let b = a + r.us(n - a + 1);
    match r.below(6) {
        0 => (0, n),
        1 => (a, a),
        2 => (0, b),
        3 => (a, n),
        _ => (a, b),
    }
}
fn c24_plain(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(20);
    let data: Vec<u16> = (0..n).map(|_| r.u64() as u16).collect();
    let (a, b) = window(&mut r, n);
    let mut w = OwnedSlice::new(data.clone(), a, b);
    let mut model = data.clone();
    c.eval(Some(hash_of(&(&data, a, b))));
    c.count("windows");
    for _ in 0..4 {
        let x: &[u16] = w.as_ref();
        if x != &model[a..b] || (w.start(), w.end()) != (a, b) {
            return c.fail(format!("window {}..{} of {:?} shows {:?} ({}..{})", a, b, model, w.as_ref() as &[u16], w.start(), w.end()));
        }
        let m: &mut [u16] = w.as_mut();
        if m.len() != b - a {
            return c.fail(format!("window {}..{} gives {} elements for writing", a, b, m.len()));
        }
        if b > a {
            let i = r.us(b - a);
            let v = r.u64() as u16;
            m[i] = v;
            model[a + i] = v;
            c.count("writes");
        }
        if *w.inner_ref() != model {
            return c.fail(format!("window {}..{}: {:?} instead of {:?}", a, b, w.inner_ref(), model));
        }
        if n > 0 && r.bool() {
            let i = r.us(n);
            w.inner_mut()[i] = 7;
            model[i] = 7;
        }
    }
    // windows over windows, arrays
    let (x, y) = window(&mut r, b - a);
    let mut ww = OwnedSlice::new(w, x, y);
    if ww.as_ref() as &[u16] != &model[a + x..a + y] {
        return c.fail(format!("window {}..{} of window {}..{} of {:?} shows {:?}", x, y, a, b, model, ww.as_ref() as &[u16]));
    }
    (ww.as_mut() as &mut [u16]).iter_mut().for_each(|e| *e = 1);
    model[a + x..a + y].iter_mut().for_each(|e| *e = 1);
    let back = ww.into_inner().into_inner();
    if back != model {
        return c.fail(format!("returned {:?} instead of {:?}", back, model));
    }
    let arr = [1u8, 2, 3, 4, 5, 6, 7];
    let (x, y) = window(&mut r, 7);
    let mut wa = OwnedSlice::new(arr, x, y);
    let copy = wa.clone();
    (wa.as_mut() as &mut [u8]).fill(0);
    let mut want = arr;
    want[x..y].fill(0);
    if copy.as_ref() as &[u8] != &arr[x..y] || wa.into_inner() != want {
        c.fail(format!("window {}..{} of an array", x, y));
    }
    c.sample(|| format!("window {}..{} of {:?}", a, b, data));
}
fn c24_bytes(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(40);
    let (a, b) = window(&mut r, n);
    let data = r.bytes(n);
    // as the source of an encoder
    let mut e = BytesEncoder::<OwnedSlice<Vec<u8>>>::new();
    for _ in 0..2 {
        if kind(e.start_encoding(OwnedSlice::new(data.clone(), a, b))).is_err() {
            return c.fail(format!("window {}..{} refused", a, b));
        }
        let mut out = vec![];
        let mut guard = 0;
        while !e.is_idle() && guard < 200 {
            guard += 1;
            if e.exact_requiring_bytes() != (b - a - out.len()) as u64 {
                return c.fail(format!("window {}..{}: requires {} after {}", a, b, e.exact_requiring_bytes(), out.len()));
            }
            let mut buf = vec![0; r.us(6)];
            match kind(e.encode(&mut buf, Eos::new(false))) {
                Ok(k) => out.extend_from_slice(&buf[..k]),
                Err(x) => return c.fail(format!("window {}..{}: {:?}", a, b, x)),
            }
        }
        if out != data[a..b] {
            return c.fail(format!("window {}..{} of {} encoded as {}", a, b, brief(&data), brief(&out)));
        }
    }
    // as the target of a decoder
    let m = b - a + 3;
    let input = r.bytes(m);
    let mut d = BytesDecoder::new(OwnedSlice::new(data.clone(), a, b));
    let mut pos = 0;
    let mut guard = 0;
    while !d.is_idle() && guard < 200 {
        guard += 1;
        if d.requiring_bytes() != ByteCount::Finite((b - a - pos) as u64) {
            return c.fail(format!("window {}..{}: requires {:?} after {}", a, b, d.requiring_bytes(), pos));
        }
        let k = r.us(5).min(input.len() - pos);
        match kind(d.decode(&input[pos..pos + k], Eos::new(false))) {
            Ok(k) => pos += k,
            Err(x) => return c.fail(format!("decoding into window {}..{}: {:?}", a, b, x)),
        }
    }
    c.eval(Some(hash_of(&(&data, a, b, &input))));
    match kind(d.finish_decoding()) {
        Ok(w) => {
            let mut want = data.clone();
            want[a..b].copy_from_slice(&input[..b - a]);
            c.count("decoded_windows");
            if w.as_ref() as &[u8] != &input[..b - a] || pos != b - a || *w.inner_ref() != want || (w.start(), w.end()) != (a, b) {
                c.fail(format!("window {}..{} of {} filled from {} gives {} (consumed {})", a, b, brief(&data), brief(&input), brief(w.inner_ref()), pos));
            }
        }
        Err(x) => c.fail(format!("decoding into window {}..{}: {:?}", a, b, x)),
    }
}
fn c24_bufs(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(24);
    let (a, b) = window(&mut r, n);
    let canary = r.bytes(n);
    let cap = b - a;
    let outside = |v: &[u8]| v.len() == n && v[..a] == canary[..a] && v[b..] == canary[b..];
    // read buffer
    let m = r.us(60);
    let src = r.bytes(m);
    let mut rb = ReadBuf::new(OwnedSlice::new(canary.clone(), a, b));
    let mut rd = &src[..];
    let mut got = vec![];
    let what = |m: String| format!("{} [window {}..{} of {}]", m, a, b, n);
    for _ in 0..200 {
        if rb.capacity() != cap || rb.len() + rb.room() > cap {
            return c.fail(what(format!("capacity {} len {} room {}", rb.capacity(), rb.len(), rb.room())));
        }
        if r.bool() {
            let lim = r.us(9) as u64;
            if rb.fill((&mut rd).take(lim)).is_err() {
                return c.fail(what("fill failed".into()));
            }
        }
        if r.bool() {
            let mut x = vec![0; r.us(7)];
            let k = rb.read(&mut x).unwrap_or(0);
            got.extend_from_slice(&x[..k]);
        } else if r.chance(1, 3) && rb.len() >= 2 {
            let mut d = U16beDecoder::new();
            if d.decode_from_read_buf(&mut rb).is_err() || !d.is_idle() {
                return c.fail(what("decode_from_read_buf failed".into()));
            }
            got.extend_from_slice(&d.finish_decoding().unwrap_or(0).to_be_bytes());
        }
        if !outside(rb.inner_ref().inner_ref()) {
            return c.fail(what(format!("the read buffer modified {} outside of its window", brief(rb.inner_ref().inner_ref()))));
        }
    }
    let held = rb.len();
    if got != src[..got.len()] || got.len() + held + rd.len() != src.len() {
        return c.fail(what(format!("read {} instead of {}", brief(&got), brief(&src))));
    }
    c.eval(Some(hash_of(&(&src, a, b, n))));
    c.add("bytes_through_read_buffers", got.len() as u64);
    // write buffer
    let mut wb = WriteBuf::new(OwnedSlice::new(canary.clone(), a, b));
    let mut sink: Vec<u8> = vec![];
    let mut put: Vec<u8> = vec![];
    let mut e = BytesEncoder::<Vec<u8>>::new();
    let mut pending: Vec<u8> = vec![];
    for _ in 0..100 {
        if wb.capacity() != cap || wb.len() + wb.room() > cap {
            return c.fail(what(format!("capacity {} len {} room {}", wb.capacity(), wb.len(), wb.room())));
        }
        match r.below(3) {
            0 => {
                let k = r.us(6);
                let x = r.bytes(k);
                if e.is_idle() {
                    let k = wb.write(&x).unwrap_or(99);
                    put.extend_from_slice(&x[..k]);
                }
            }
            1 => {
                if e.is_idle() {
                    put.extend_from_slice(&pending);
                    pending.clear();
                    let k = r.us(6);
                    pending = r.bytes(k);
                    let _ = e.start_encoding(pending.clone());
                }
                if e.encode_to_write_buf(&mut wb).is_err() {
                    return c.fail(what("encode_to_write_buf failed".into()));
                }
                if e.is_idle() {
                    put.extend_from_slice(&pending);
                    pending.clear();
                }
            }
            _ => {
                let k = r.us(8);
                let mut room = vec![0; k];
                let left = {
                    let mut w = &mut room[..];
                    if wb.flush(&mut w).is_err() {
                        return c.fail(what("flush failed".into()));
                    }
                    w.len()
                };
                sink.extend_from_slice(&room[..k - left]);
                // the next writer is another one
                *wb.stream_state_mut() = StreamState::Normal;
            }
        }
        if !outside(wb.inner_ref().inner_ref()) {
            return c.fail(what(format!("the write buffer modified {} outside of its window", brief(wb.inner_ref().inner_ref()))));
        }
    }
    let done = pending.len() - e.exact_requiring_bytes() as usize;
    put.extend_from_slice(&pending[..done]);
    *wb.stream_state_mut() = StreamState::Normal;
    if wb.flush(&mut sink).is_err() {
        return c.fail(what("flush failed".into()));
    }
    c.add("bytes_through_write_buffers", sink.len() as u64);
    if sink != put {
        c.fail(what(format!("wrote {} instead of {}", brief(&sink), brief(&put))));
    }
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        stages: vec![
            stage("plain", 30_000, 1_000_000, c24_plain),
            stage("bytes", 30_000, 1_000_000, c24_bytes),
            stage("buffers", 6000, 300_000, c24_bufs),
        ],
        rule: "windows (empty, full, prefix, suffix, inner, nested) over owned buffers with canary contents, used directly and as storage; \
distinct by window, contents and traffic",
        must: &["windows", "writes", "decoded_windows", "bytes_through_read_buffers", "bytes_through_write_buffers"],
        level: "exploration",
        findings: vec![],
    }
}
