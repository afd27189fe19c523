//! C02, C03, C07, C12: encoders under arbitrary buffer plans.
use super::common::*;
use crate::drive::EncSeen;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::fixnum::{U16beEncoder, U8Encoder};
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;

pub fn build(s: &Shape, sized: bool, monitor: bool) -> mk::DynEnc {
    if sized && s.sized() {
        Box::new(mk::senc_with(s, monitor))
    } else {
        mk::enc_with(s, monitor)
    }
}
fn check_out(c: &mut Ctx, seen: &EncSeen, want: &[u8], what: &dyn Fn() -> String) {
    if let Some(m) = &seen.broken {
        c.fail(format!("{} [{}]", m, what()));
    } else if seen.end.is_err() || seen.out != want {
        c.fail(format!("{:?} with {} instead of {} [{}]", seen.end, brief(&seen.out), brief(want), what()));
    }
}
fn out_styles(r: &mut Rng, s: &Shape) -> OutStyle {
    let _ = s;
    match r.below(4) {
        0 => OutStyle::Open,
        1 => OutStyle::Exact(0),
        2 => OutStyle::Exact(r.below(5)),
        _ => OutStyle::Infinite,
    }
}
fn run_plan(c: &mut Ctx, s: &Shape, items: &[(Value, Vec<u8>)], sizes: &[usize], style: OutStyle, sized: bool, cats: u32) {
    mon::reset(cats);
    let mut e = build(s, sized, true);
    for (i, (v, want)) in items.iter().enumerate() {
        let what = || format!("{:?} item #{} {} sizes {} {:?} sized {}", s, i, bdbg(v), bdbg(&sizes), style, sized);
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(format!("refused with {:?} [{}]", k, what()));
        }
        let seen = drive::encode(&mut e, sizes, style, want.len());
        c.eval((!want.is_empty()).then(|| hash_of(&(s, want, sizes, style, i))));
        c.add("bytes_emitted", seen.out.len() as u64);
        c.add("encode_calls_outer", seen.calls);
        check_out(c, &seen, want, &what);
        c.drain(&what);
        if !c.fails.is_empty() {
            return;
        }
        c.count("items_encoded");
    }
}
fn plans(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize, cats: u32, limit: usize) {
    let n = 1 + r.us(3);
    let items: Vec<_> = (0..n).filter_map(|_| enc_item(s, r, size)).collect();
    if items.is_empty() {
        return;
    }
    let len = items[0].1.len();
    c.max("max_item_bytes", len as u64);
    if len <= 9 && limit > 50 {
        // every way to split the output of one item
        let masks = if len <= 1 { 1u64 } else { 1 << (len - 1) };
        let step = (masks as usize * 2 / limit).max(1);
        let mut k = r.us(step);
        while k < masks as usize * 2 {
            let mut sizes = cuts_from_mask(len, (k / 2) as u64);
            if r.chance(1, 3) {
                let i = r.us(sizes.len() + 1);
                sizes.insert(i, 0);
            }
            if r.chance(1, 3) {
                let i = sizes.len() - 1;
                sizes[i] += r.us(3);
            }
            c.count("exhaustive_plans");
            let st = out_styles(r, s);
            run_plan(c, s, &items, &sizes, st, k % 2 == 0, cats);
            if !c.fails.is_empty() {
                return;
            }
            k += step;
        }
    }
    for _ in 0..if limit > 50 { 12 } else { 4 } {
        let sizes = buffer_sizes(r, len);
        let st = out_styles(r, s);
        let z = r.bool();
        run_plan(c, s, &items, &sizes, st, z, cats);
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?} items {}", s, bdbg(&items.iter().map(|x| brief(&x.1)).collect::<Vec<_>>())));
}
pub fn buffer_sizes(r: &mut Rng, len: usize) -> Vec<usize> {
    match r.below(7) {
        0 => vec![1],
        1 => vec![0, 1],
        2 => vec![len + r.us(4)],
        3 => (0..1 + r.us(6)).map(|_| r.us(5)).chain([1]).collect(),
        4 => (0..1 + r.us(6)).map(|_| r.us(len + 2)).chain([1]).collect(),
        5 => vec![*r.pick(&[1usize, 2, 3, 5, 255, 256, 1023, 1024, 1025, 4096])],
        _ => vec![len.saturating_sub(1).max(1), 1, 0, 2],
    }
}
fn cat_case(c: &mut Ctx, cats: u32) {
    let cat = catalogue();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..3 {
        plans(c, &s, &mut r, 8, cats, 200);
        if !c.fails.is_empty() {
            return;
        }
    }
}
fn rand_case(c: &mut Ctx, cats: u32) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 10, 40, 200]);
    let s = enc_shape(&mut r, size);
    for _ in 0..3 {
        plans(c, &s, &mut r, size, cats, 100);
        if !c.fails.is_empty() {
            return;
        }
    }
}
fn big_case(c: &mut Ctx, cats: u32) {
    let mut r = Rng::new(c.rng.u64());
    let (s, n) = super::dec::big_shape(&mut r);
    plans(c, &s, &mut r, n, cats, 10);
}
fn c02_cat(c: &mut Ctx) {
    cat_case(c, mon::OUT)
}
fn c02_rand(c: &mut Ctx) {
    rand_case(c, mon::OUT)
}
fn c02_big(c: &mut Ctx) {
    big_case(c, mon::OUT)
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        stages: vec![
            stage("catalogue", 900, 40_000, c02_cat),
            stage("random", 6000, 400_000, c02_rand),
            stage("big", 150, 4000, c02_big),
            stage("huge", 40, 1500, super::huge::enc),
            stage("typed", 6000, 300_000, super::combs::c02_typed),
        ],
        rule: "drawn compositions, items and sequences of output buffers (all splits of short items); non-trivial: a non-empty item was emitted; \
distinct by composition, bytes and buffer plan",
        must: &["items_encoded", "exhaustive_plans", "encode_calls", "typed_encoders"],
        level: "exploration",
        findings: vec![],
    }
}

// ---------------------------------------------------------------------------------------------- C07
fn c07_cat(c: &mut Ctx) {
    cat_case(c, mon::COUNT)
}
fn c07_rand(c: &mut Ctx) {
    rand_case(c, mon::COUNT)
}
fn c07_big(c: &mut Ctx) {
    big_case(c, mon::COUNT)
}
/// Without monitors: sum of what is written after a finite claim, on every encoder state.
fn c07_claims(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let s = enc_shape(&mut r, 20);
    let sized = s.sized();
    mon::reset(0);
    enum E {
        S(mk::DynSEnc),
        U(mk::DynEnc),
    }
    let mut e = if sized { E::S(mk::senc_with(&s, false)) } else { E::U(mk::enc_bare(&s)) };
    macro_rules! on {
        ($x:ident, $b:expr) => {
            match &mut e {
                E::S($x) => $b,
                E::U($x) => $b,
            }
        };
    }
    let mut claim = |e: &mut E, when: &str, c: &mut Ctx| -> Option<u64> {
        let (req, idle, exact) = match e {
            E::S(x) => (x.requiring_bytes(), x.is_idle(), Some(x.exact_requiring_bytes())),
            E::U(x) => (x.requiring_bytes(), x.is_idle(), None),
        };
        if let Some(x) = exact {
            if req != ByteCount::Finite(x) {
                c.fail(format!("{:?} {}: requires {:?}, exactly {}", s, when, req, x));
            }
        }
        if idle && req != ByteCount::Finite(0) {
            c.fail(format!("{:?} {}: idle and requires {:?}", s, when, req));
        }
        c.count("claims");
        req.to_u64()
    };
    for i in 0..3 {
        let Some((v, want)) = enc_item(&s, &mut r, 20) else { return };
        let idle = on!(x, x.is_idle());
        if !idle || claim(&mut e, "between items", c).is_some_and(|n| n != 0) {
            return c.fail(format!("{:?} before item #{}: idle {} requires {:?}", s, i, idle, on!(x, x.requiring_bytes())));
        }
        if on!(x, x.start_encoding(v.clone())).is_err() {
            return c.fail(format!("{:?} refused {}", s, bdbg(&v)));
        }
        let mut claims = vec![];
        let mut out = 0u64;
        let mut guard = 0;
        loop {
            if let Some(n) = claim(&mut e, "while encoding", c) {
                claims.push((out, n));
            }
            if on!(x, x.is_idle()) {
                break;
            }
            guard += 1;
            let mut b = vec![0; if guard > 30 { 8 } else { r.us(6) }];
            match kind(on!(x, x.encode(&mut b, Eos::new(false)))) {
                Ok(n) => out += n as u64,
                Err(k) => return c.fail(format!("{:?}: {:?}", s, k)),
            }
            if guard > 2000 + want.len() {
                return c.fail(format!("{:?} does not end", s));
            }
        }
        c.eval((out > 0).then(|| hash_of(&(&s, &want, out, claims.len()))));
        for (at, n) in claims {
            c.count("finite_claims_checked");
            if at + n != out {
                return c.fail(format!("{:?} item {}: at {} claimed {} remaining bytes, wrote {} in all", s, bdbg(&v), at, n, out));
            }
        }
    }
}
/// Encoders of infinite items.
fn c07_infinite(c: &mut Ctx) {
    use bytecodec::padding::PaddingEncoder;
    let mut r = Rng::new(c.rng.u64());
    let x = r.byte();
    let n = r.us(3000);
    let total = r.us(40);
    macro_rules! go {
        ($name:expr, $e:expr, $start:expr) => {{
            let mut e = $e;
            if !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
                c.fail(format!("{}: fresh but idle {} requires {:?}", $name, e.is_idle(), e.requiring_bytes()));
            }
            for round in 0..2 {
                if let Err(k) = kind(e.start_encoding($start)) {
                    c.fail(format!("{}: {:?}", $name, k));
                    break;
                }
                let mut out = 0;
                let plan = if round == 0 { vec![n] } else { random_cuts(&mut r, total) };
                let k = plan.len();
                for (i, &m) in plan.iter().enumerate() {
                    if e.requiring_bytes() != ByteCount::Infinite {
                        c.fail(format!("{}: requires {:?} while padding", $name, e.requiring_bytes()));
                    }
                    let mut b = vec![!x; m];
                    match kind(e.encode(&mut b, Eos::new(i + 1 == k))) {
                        Ok(q) if q == m && b.iter().all(|&y| y == x) => out += q,
                        z => c.fail(format!("{}: {:?} for a buffer of {}", $name, z, m)),
                    }
                }
                if !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
                    c.fail(format!("{}: after the end: idle {} requires {:?}", $name, e.is_idle(), e.requiring_bytes()));
                }
                c.eval(Some(hash_of(&($name, out, x, &plan))));
                c.count("infinite_items");
            }
        }};
    }
    go!("padding", PaddingEncoder::new(), x);
    go!("optional padding", PaddingEncoder::new().optional(), Some(x));
    go!("mapped padding", PaddingEncoder::new().map_from(|v: u8| v), x);
    go!("boxed padding", Box::new(PaddingEncoder::new()), x);
    go!("chained padding", bytecodec::null::NullEncoder.chain(PaddingEncoder::new()), ((), x));
    go!("padding under a limit", PaddingEncoder::new().max_bytes(u64::MAX), x);
}
/// Regions so large that their sum may exceed what can be represented.
fn c07_wide(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut pick = || if r.chance(1, 3) { 1 + r.below(9) } else { super::slices::huge(&mut r).max(1) };
    let ls = [pick(), pick(), pick()];
    let p = |i: usize| PaddingEncoder::new().length(ls[i]);
    let mut e = TupleEncoder::new((p(0), U8Encoder::new(), TupleEncoder::new((p(1), p(2))), U16beEncoder::new()));
    let mut o = p(0).chain(p(1)).optional();
    if let Err(k) = kind(e.start_encoding((1, 2, (3, 4), 5)).and_then(|()| o.start_encoding(Some((6, 7))))) {
        return c.fail(format!("refused with {:?}, lengths {:?}", k, ls));
    }
    let mut total = ls.iter().map(|&x| x as u128).sum::<u128>() + 3;
    let both = (ls[0] as u128 + ls[1] as u128).min(u64::MAX as u128) as u64;
    if o.exact_requiring_bytes() != both || o.requiring_bytes() != ByteCount::Finite(both) {
        return c.fail(format!("chain of {:?}: requires {:?}, exactly {}", &ls[..2], o.requiring_bytes(), o.exact_requiring_bytes()));
    }
    for _ in 0..8 {
        let want = total.min(u64::MAX as u128) as u64;
        if e.exact_requiring_bytes() != want || e.requiring_bytes() != ByteCount::Finite(want) {
            return c.fail(format!("{} bytes of {:?} left: requires {:?}, exactly {}", total, ls, e.requiring_bytes(), e.exact_requiring_bytes()));
        }
        c.count(if total > u64::MAX as u128 { "saturated_sums" } else { "wide_sums" });
        let k = r.us(12);
        match kind(e.encode(&mut vec![0; k], Eos::new(false))) {
            Ok(n) if n as u128 == (k as u128).min(total) => total -= n as u128,
            x => return c.fail(format!("{:?} for {} bytes of {:?}, {} left", x, k, ls, total)),
        }
    }
    c.eval(Some(hash_of(&(ls, total as u64))));
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        stages: vec![
            stage("catalogue", 900, 40_000, c07_cat),
            stage("random", 5000, 400_000, c07_rand),
            stage("claims", 20_000, 800_000, c07_claims),
            stage("big", 100, 2000, c07_big),
            stage("infinite", 400, 10_000, c07_infinite),
            stage("sliced", 4000, 200_000, super::slices::c07_sliced),
            stage("typed", 5000, 300_000, super::combs::c07_typed),
            stage("wide", 4000, 100_000, c07_wide),
        ],
        rule: "drawn compositions and items; after every call the reported remaining bytes are compared with what is later written; non-trivial: \
bytes were emitted; distinct by composition, bytes and plan",
        must: &["counts_checked", "finite_claims_checked", "infinite_items", "typed_encoders", "saturated_sums", "wide_sums"],
        level: "exploration",
        findings: vec![("K1", super::probes::k1)],
    }
}

// ---------------------------------------------------------------------------------------------- C12
/// An item that `start_encoding` must refuse, outside of the known findings K2 and K3 (an invalid
/// element behind the first one of a tuple; an invalid element of a pre-encoded repetition).
pub fn gen_invalid(s: &Shape, r: &mut Rng) -> Option<Value> {
    use Shape::*;
    Some(match s {
        Num(k) if k.refusable() => {
            // the item type is u32 for 24 bits and u64 otherwise
            let top = if k.width() == 3 { u32::MAX as u64 } else { u64::MAX };
            let v = match r.below(4) {
                0 => k.max() + 1,
                1 => top,
                2 => (k.max() + 1) << r.below(if k.width() == 3 { 8 } else { 64 - 8 * k.width() as u64 }),
                _ => r.range(k.max() + 1, top),
            };
            Value::U(v)
        }
        TryMap(a) => {
            for _ in 0..30 {
                let v = gen_value(a, r, 8)?;
                if refused(&v).is_some() {
                    return Some(Value::Mapped(Box::new(v)));
                }
            }
            return None;
        }
        LenPrefix(k, a) if k.width() == 1 && r.bool() => {
            for _ in 0..4 {
                let v = gen_value(a, r, 600)?;
                if refm::encode(a, &v).ok()?.len() > 255 {
                    return Some(v);
                }
            }
            return None;
        }
        CountPrefix(NumKind::U8, a) => Value::List((0..256 + r.us(3)).map(|_| gen_value(a, r, 2)).collect::<Option<_>>()?),
        Tuple(v) => {
            let mut l = vec![gen_invalid(&v[0], r)?];
            for x in &v[1..] {
                l.push(gen_value(x, r, 4)?);
            }
            Value::List(l)
        }
        Chain(a, b) => Value::List(vec![gen_invalid(a, r)?, gen_value(b, r, 4)?]),
        Omit(_, a) => Value::Opt(Some(Box::new(gen_invalid(a, r)?))),
        Map(a) => Value::Mapped(Box::new(gen_invalid(a, r)?)),
        MapErr(a) | MaxBytes(_, a) | Slice(a) | Peek(a) | MaybeEos(a) | Boxed(a) | Length(_, a) => gen_invalid(a, r)?,
        _ => return None,
    })
}
pub fn absent(v: &Value) -> bool {
    match v {
        Value::Opt(None) => true,
        Value::Opt(Some(v)) | Value::Mapped(v) => absent(v),
        _ => false,
    }
}
fn transparent_null(s: &Shape) -> bool {
    // compositions that are idle at once after any item
    match s {
        Shape::Null => true,
        Shape::Omit(true, _) => true,
        s if s.children().is_empty() => false,
        s => s.children().iter().all(|c| transparent_null(c)),
    }
}
fn c12_shape(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    let sized = r.bool();
    mon::reset(mon::ACCEPT);
    let mut e = build(s, sized, true);
    for i in 0..4 {
        let what = |m: String| format!("{} [{:?} item #{} sized {}]", m, s, i, sized);
        if !e.is_idle() {
            return c.fail(what("not idle between items".into()));
        }
        // invalid items first
        for _ in 0..r.us(3) {
            let Some(bad) = gen_invalid(s, r) else { break };
            let mask = match refm::encode(s, &bad) {
                Err(refm::EncErr::Refused(m)) => m,
                _ => continue,
            };
            match kind(e.start_encoding(bad.clone())) {
                Err(k) if bit(k) & mask != 0 => c.count("invalid_items_refused"),
                x => return c.fail(what(format!("invalid item {} gave {:?}", bdbg(&bad), x))),
            }
            if !e.is_idle() {
                return c.fail(what(format!("not idle after refusing {}", bdbg(&bad))));
            }
            if r.bool() {
                let mut b = [0x77; 5];
                match kind(e.encode(&mut b, Eos::new(false))) {
                    Ok(0) => {}
                    x => return c.fail(what(format!("{:?} after refusing {}: {:?}", x, bdbg(&bad), b))),
                }
            }
        }
        let Some((v, want)) = enc_item(s, r, size) else { return };
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(what(format!("idle, but refused {} with {:?}", bdbg(&v), k)));
        }
        let mut out = vec![];
        let mut guard = 0;
        while !e.is_idle() {
            guard += 1;
            if guard > 200 + 3 * want.len() {
                return c.fail(what("does not end".into()));
            }
            if r.chance(1, 3) {
                // another item while busy
                if let Some((v2, w2)) = enc_item(s, r, size) {
                    if !absent(&v2) && !(w2.is_empty() && transparent_null(s)) && !maybe_passes(s, &v2) {
                        match kind(e.start_encoding(v2.clone())) {
                            Err(ErrorKind::EncoderFull) => c.count("busy_refusals"),
                            x => return c.fail(what(format!("busy with {} at {}, offered {}: {:?}", bdbg(&v), out.len(), bdbg(&v2), x))),
                        }
                    }
                }
                if e.is_idle() {
                    return c.fail(what(format!("idle after a refusal, {} bytes are missing", want.len() - out.len())));
                }
            }
            let mut b = vec![0x33; if guard > 40 { 16 } else { r.us(5) }];
            match kind(e.encode(&mut b, Eos::new(false))) {
                Ok(n) => out.extend_from_slice(&b[..n]),
                Err(k) => return c.fail(what(format!("encoding {} failed with {:?}", bdbg(&v), k))),
            }
        }
        if out != want {
            return c.fail(what(format!("emitted {} instead of {}", brief(&out), brief(&want))));
        }
        c.eval((!want.is_empty()).then(|| hash_of(&(s, &want, guard, i))));
        c.count("items_encoded");
    }
    c.drain(&|| format!("{:?}", s));
    c.sample(|| format!("{:?}", s));
}
/// Items that a busy composition may legitimately take: nothing of theirs would be written.
fn maybe_passes(s: &Shape, v: &Value) -> bool {
    match (s, v) {
        (Shape::Null, _) => true,
        (_, Value::Opt(None)) => true,
        (Shape::Omit(_, a), Value::Opt(Some(v))) => maybe_passes(a, v),
        (Shape::Map(a) | Shape::TryMap(a), Value::Mapped(v)) => maybe_passes(a, v),
        (Shape::MapErr(a) | Shape::MaxBytes(_, a) | Shape::Slice(a) | Shape::MaybeEos(a) | Shape::Boxed(a), v) => maybe_passes(a, v),
        // `try_map_from` and `pre_encode` may notice an invalid item first, but here it is valid
        _ => false,
    }
}
fn c12_cat(c: &mut Ctx) {
    let mut cat = catalogue();
    // compositions with refusable parts
    for k in NUMS.iter().filter(|k| k.refusable()) {
        let n = || Shape::Num(*k).b();
        cat.extend([
            Shape::Map(n()),
            Shape::MapErr(n()),
            Shape::Omit(false, n()),
            Shape::Peek(n()),
            Shape::Slice(n()),
            Shape::Boxed(n()),
            Shape::MaxBytes(9, n()),
            Shape::Length(k.width() as u64, n()),
            Shape::TryMap(n()),
            Shape::Chain(n(), Shape::Num(NumKind::U8).b()),
            Shape::Tuple(vec![*n(), Shape::Rest, Shape::Null]),
            Shape::Peek(Shape::Chain(n(), n()).b()),
        ]);
    }
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..12 {
        c12_shape(c, &s, &mut r, 8);
        if !c.fails.is_empty() {
            return;
        }
    }
}
fn c12_rand(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 10, 40]);
    let depth = r.us(4);
    let s = gen_any(&mut r, GenOpt { size, depth, decode_only: true, need_reusable: false, big: false }, true);
    for _ in 0..4 {
        c12_shape(c, &s, &mut r, size);
        if !c.fails.is_empty() {
            return;
        }
    }
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        stages: vec![
            stage("catalogue", 2600, 60_000, c12_cat),
            stage("random", 10_000, 600_000, c12_rand),
            stage("typed", 3000, 100_000, super::combs::c12_typed),
        ],
        rule: "drawn compositions; valid items with further items offered at drawn moments of the encoding, and invalid items in between; \
non-trivial: bytes were emitted; distinct by composition, bytes and schedule",
        must: &["busy_refusals", "invalid_items_refused", "items_encoded"],
        level: "exploration",
        findings: vec![("K2", super::probes::k2), ("K3", super::probes::k3)],
    }
}

// ---------------------------------------------------------------------------------------------- C03
pub fn c03_shape(r: &mut Rng, size: usize) -> Shape {
    for _ in 0..40 {
        let depth = r.us(4);
        let s = gen_closed(r, GenOpt { size, depth, decode_only: false, need_reusable: true, big: false });
        if s.reusable() && !s.eos_delimited() {
            return s;
        }
    }
    Shape::LenPrefix(NumKind::U16be, Shape::Utf8.b())
}
fn c03_direct(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 20, 100]);
    let s = c03_shape(&mut r, size);
    c03_on(c, &s, &mut r, size);
}
fn c03_cat(c: &mut Ctx) {
    let cat: Vec<Shape> = catalogue().into_iter().filter(|s| s.reusable() && !s.eos_delimited()).collect();
    let s = cat[(c.idx as usize) % cat.len()].clone();
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..6 {
        c03_on(c, &s, &mut r, 10);
    }
}
fn c03_on(c: &mut Ctx, s: &Shape, r: &mut Rng, size: usize) {
    let n = 1 + r.us(5);
    let mut items = vec![];
    for _ in 0..n {
        match enc_item(s, r, size) {
            Some((v, _)) => items.push(v),
            None => return,
        }
    }
    mon::reset(0);
    let sized = r.bool();
    let mut e = build(s, sized, false);
    let mut stream = vec![];
    let mut bounds = vec![];
    for v in &items {
        if let Err(k) = kind(e.start_encoding(v.clone())) {
            return c.fail(format!("{:?} refused {}: {:?}", s, bdbg(v), k));
        }
        let sizes = buffer_sizes(r, 12);
        let seen = drive::encode(&mut e, &sizes, OutStyle::Open, 40_000_000);
        if seen.broken.is_some() || seen.end.is_err() {
            return c.fail(format!("{:?} item {}: {:?} {:?}", s, bdbg(v), seen.broken, seen.end));
        }
        stream.extend(seen.out);
        bounds.push(stream.len());
    }
    let what = |m: String| format!("{} [{:?} items {} stream {} bounds {:?}]", m, s, bdbg(&items), brief(&stream), bounds);
    for _ in 0..2 {
        let mut d = mk::dec_bare(s);
        let mut pos = 0;
        let cuts = random_cuts(r, stream.len());
        let style = *r.pick(&[Style::Last, Style::Exact, Style::Never, Style::Mixed]);
        let style = if s.any(&|s| matches!(s, Shape::MaxBytes(..))) { Style::Never } else { style };
        let seen = drive::decode(&mut d, &stream, &cuts, style, r, DecOpt { max_items: n, ..DecOpt::default() });
        c.eval((!stream.is_empty()).then(|| hash_of(&(s, &stream, &cuts, style))));
        let limited = s.any(&|s| matches!(s, Shape::MaxBytes(..)));
        for (i, v) in items.iter().enumerate() {
            match seen.items.get(i) {
                Some((Ok(x), p)) if x == v && *p == bounds[i] => pos = *p,
                // zero-size items at the end of the stream
                None if pos == stream.len() && bounds[i] == pos => {}
                // a limit sees the following items of the buffer as well
                None | Some((Err(_), _)) if limited => break,
                x => return c.fail(what(format!("item #{} came back as {} (end {:?}), cuts {} {:?}", i, bdbg(&x), seen.end, bdbg(&cuts), style))),
            }
            c.count("round_trips");
        }
    }
    c.sample(|| format!("{:?} {}", s, brief(&stream)));
}
/// Through a write buffer and a read buffer connected by a byte pipe of small capacity.
fn c03_pipe(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let size = *r.pick(&[4usize, 20, 100]);
    let s = c03_shape(&mut r, size);
    if s.any(&|s| matches!(s, Shape::MaxBytes(..))) {
        return;
    }
    let n = 1 + r.us(6);
    let mut items = vec![];
    for _ in 0..n {
        match enc_item(&s, &mut r, size) {
            Some((v, e)) => items.push((v, e)),
            None => return,
        }
    }
    let total: usize = items.iter().map(|x| x.1.len()).sum();
    mon::reset(0);
    let mut e = build(&s, r.bool(), false);
    let mut d = mk::dec_bare(&s);
    let (a, b) = (1 + r.us(9), 1 + r.us(9));
    let mut wbuf = WriteBuf::new(vec![0; a]);
    let mut rbuf = ReadBuf::new(vec![0; b]);
    let mut pipe: std::collections::VecDeque<u8> = Default::default();
    let cap = 1 + r.us(12);
    struct W<'a>(&'a mut std::collections::VecDeque<u8>, usize);
    impl std::io::Write for W<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.1 - self.0.len());
            if n == 0 {
                return Err(std::io::ErrorKind::WouldBlock.into());
            }
            self.0.extend(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    struct R<'a>(&'a mut std::collections::VecDeque<u8>);
    impl std::io::Read for R<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len());
            if n == 0 {
                return Err(std::io::ErrorKind::WouldBlock.into());
            }
            for x in &mut b[..n] {
                *x = self.0.pop_front().unwrap();
            }
            Ok(n)
        }
    }
    let mut sent = 0;
    let mut got: Vec<Value> = vec![];
    let mut rounds = 0;
    let what = |m: String| format!("{} [{:?} {} items, {} bytes, buffers {}/{}/{}]", m, s, n, total, a, cap, b);
    while got.len() < n {
        rounds += 1;
        if rounds > 50 * (total + n + 10) {
            return c.fail(what(format!("stuck: sent {} received {}", sent, got.len())));
        }
        match r.below(4) {
            0 => {
                if e.is_idle() && sent < n {
                    if let Err(k) = kind(e.start_encoding(items[sent].0.clone())) {
                        return c.fail(what(format!("refused: {:?}", k)));
                    }
                    sent += 1;
                }
                if let Err(k) = kind(e.encode_to_write_buf(&mut wbuf)) {
                    return c.fail(what(format!("encode_to_write_buf: {:?}", k)));
                }
            }
            1 => {
                if let Err(k) = kind(wbuf.flush(W(&mut pipe, cap))) {
                    return c.fail(what(format!("flush: {:?}", k)));
                }
            }
            2 => {
                if let Err(k) = kind(rbuf.fill(R(&mut pipe))) {
                    return c.fail(what(format!("fill: {:?}", k)));
                }
            }
            _ => {
                if !d.is_idle() {
                    if let Err(k) = kind(d.decode_from_read_buf(&mut rbuf)) {
                        return c.fail(what(format!("decode_from_read_buf: {:?}", k)));
                    }
                }
                if d.is_idle() {
                    if got.len() == sent {
                        // zero-size items that have not been sent
                        if items[got.len()].1.is_empty() {
                            continue;
                        }
                        return c.fail(what(format!("item #{} appeared before it was sent", got.len())));
                    }
                    match kind(d.finish_decoding()) {
                        Ok(v) if v == items[got.len()].0 => got.push(v),
                        x => return c.fail(what(format!("item #{} came back as {} instead of {}", got.len(), bdbg(&x), bdbg(&items[got.len()].0)))),
                    }
                    c.count("round_trips");
                }
            }
        }
    }
    if !pipe.is_empty() || rbuf.len() != 0 || wbuf.len() != 0 || !e.is_idle() {
        c.fail(what(format!("left over: pipe {} rbuf {} wbuf {} idle {}", pipe.len(), rbuf.len(), wbuf.len(), e.is_idle())));
    }
    c.count("pipes");
    c.eval((total > 0).then(|| hash_of(&(&s, rounds, total, a, b, cap))));
}
fn c03_big(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let (s, n) = super::dec::big_shape(&mut r);
    if s.eos_delimited() || !s.reusable() {
        return;
    }
    c03_on(c, &s, &mut r, n);
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        stages: vec![
            stage("catalogue", 700, 30_000, c03_cat),
            stage("random", 15_000, 800_000, c03_direct),
            stage("pipes", 15_000, 800_000, c03_pipe),
            stage("big", 60, 2000, c03_big),
            stage("huge", 25, 1000, super::huge::round),
            stage("aged", 50, 3000, super::huge::aged),
            stage("typed", 3000, 100_000, super::combs::c03_typed),
        ],
        rule: "sequences of items of drawn self-delimiting compositions through one encoder and one decoder, directly and over a pipe with small \
buffers; non-trivial: at least one byte; distinct by composition, stream and schedule",
        must: &["round_trips", "pipes"],
        level: "exploration",
        findings: vec![],
    }
}
