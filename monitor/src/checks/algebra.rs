//! C22: byte counts and end-of-stream marks.
use super::common::*;
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use std::cmp::Ordering;

fn pool() -> Vec<ByteCount> {
    let mut v = vec![ByteCount::Infinite, ByteCount::Unknown];
    let mut n: Vec<u64> = (0..=260).collect();
    for b in 2..64 {
        let p = 1u64 << b;
        n.extend([p - 1, p, p + 1]);
    }
    n.extend((0..5).map(|i| u64::MAX - i));
    n.extend([u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 2 + 2]);
    n.sort();
    n.dedup();
    v.extend(n.into_iter().map(ByteCount::Finite));
    v
}
fn fin(a: u64, b: u64) -> ByteCount {
    ByteCount::Finite((a as u128 + b as u128).min(u64::MAX as u128) as u64)
}
/// The documented tables, written independently: (kind, number).
fn dec_sum(a: ByteCount, b: ByteCount) -> ByteCount {
    use ByteCount::*;
    if a == Infinite || b == Infinite {
        return Infinite;
    }
    match (a.to_u64(), b.to_u64()) {
        (None, None) | (Some(0), None) | (None, Some(0)) => Unknown,
        (Some(x), None) | (None, Some(x)) => Finite(x),
        (Some(x), Some(y)) => fin(x, y),
    }
}
fn enc_sum(a: ByteCount, b: ByteCount) -> ByteCount {
    use ByteCount::*;
    if a == Infinite || b == Infinite {
        return Infinite;
    }
    match (a.to_u64(), b.to_u64()) {
        (Some(x), Some(y)) => fin(x, y),
        _ => Unknown,
    }
}
fn order(a: ByteCount, b: ByteCount) -> Option<Ordering> {
    use ByteCount::*;
    match (a, b) {
        (Unknown, _) | (_, Unknown) => None,
        (Finite(x), Finite(y)) => Some(x.cmp(&y)),
        (Infinite, Infinite) => Some(Ordering::Equal),
        (Infinite, _) => Some(Ordering::Greater),
        (_, Infinite) => Some(Ordering::Less),
    }
}
fn single(c: &mut Ctx, a: ByteCount) {
    let (f, i, u, n) = match a {
        ByteCount::Finite(n) => (true, false, false, Some(n)),
        ByteCount::Infinite => (false, true, false, None),
        ByteCount::Unknown => (false, false, true, None),
    };
    if (a.is_finite(), a.is_infinite(), a.is_unknow(), a.to_u64()) != (f, i, u, n) {
        c.fail(format!("classification of {:?} is wrong", a));
    }
    let e = Eos::with_remaining_bytes(a);
    if e.remaining_bytes() != a {
        c.fail(format!("an Eos made with {:?} remaining bytes reports {:?}", a, e.remaining_bytes()));
    }
    if e.is_reached() != (n == Some(0)) {
        c.fail(format!("{:?} is_reached: {}", e, e.is_reached()));
    }
}
fn pair(c: &mut Ctx, a: ByteCount, b: ByteCount) {
    let d = (a.add_for_decoding(b), dec_sum(a, b));
    if d.0 != d.1 {
        c.fail(format!("{:?} + {:?} for decoding is {:?} instead of {:?}", a, b, d.0, d.1));
    }
    let e = (a.add_for_encoding(b), enc_sum(a, b));
    if e.0 != e.1 {
        c.fail(format!("{:?} + {:?} for encoding is {:?} instead of {:?}", a, b, e.0, e.1));
    }
    if a.add_for_decoding(b) != b.add_for_decoding(a) || a.add_for_encoding(b) != b.add_for_encoding(a) {
        c.fail(format!("adding {:?} and {:?} depends on their order", a, b));
    }
    let unk = a == ByteCount::Unknown || b == ByteCount::Unknown;
    let o = order(a, b);
    let got = a.partial_cmp(&b);
    // Whether Unknown equals itself in the ordering is left open.
    if !unk && got != o || unk && matches!(got, Some(Ordering::Less | Ordering::Greater)) {
        c.fail(format!("{:?} compared to {:?} is {:?} instead of {:?}", a, b, got, o));
    }
    let want = (o == Some(Ordering::Less), o == Some(Ordering::Greater));
    if (a < b, a > b) != want {
        c.fail(format!("{:?} < {:?}: {}, >: {}", a, b, a < b, a > b));
    }
    if !unk && (a <= b, a >= b) != (o != Some(Ordering::Greater), o != Some(Ordering::Less)) {
        c.fail(format!("{:?} <= {:?}: {}, >=: {}", a, b, a <= b, a >= b));
    }
    if (a == b) != (format!("{:?}", a) == format!("{:?}", b)) {
        c.fail(format!("equality of {:?} and {:?} is wrong", a, b));
    }
    let (x, y) = (Eos::with_remaining_bytes(a), Eos::with_remaining_bytes(b));
    if !unk && x.partial_cmp(&y) != o || (x == y) != (a == b) {
        c.fail(format!("comparing {:?} and {:?} differs from comparing their remaining bytes", x, y));
    }
    if let ByteCount::Finite(n) = b {
        let want = match a {
            ByteCount::Finite(m) => fin(m, n),
            a => a,
        };
        let got = x.back(n);
        if got.remaining_bytes() != want {
            c.fail(format!("{:?} moved back by {} is {:?}", x, n, got));
        }
        if got.is_reached() != (want == ByteCount::Finite(0)) {
            c.fail(format!("{:?} is_reached: {}", got, got.is_reached()));
        }
    }
    c.eval(Some(hash_of(&(a, b))));
}
fn all_pairs(c: &mut Ctx) {
    let p = pool();
    let a = p[c.idx as usize % p.len()];
    single(c, a);
    for (x, i) in [(ByteCount::Finite(0), 0), (ByteCount::Infinite, 1)] {
        let z = if i == 0 { a } else { ByteCount::Infinite };
        if a.add_for_decoding(x) != z || a.add_for_encoding(x) != z || x.add_for_decoding(a) != z || x.add_for_encoding(a) != z {
            c.fail(format!("adding {:?} and {:?} is not {:?}", a, x, z));
        }
    }
    for &b in &p {
        pair(c, a, b);
    }
    c.add("pairs", p.len() as u64);
    if c.idx == 0 {
        for (b, want) in [(true, ByteCount::Finite(0)), (false, ByteCount::Unknown)] {
            let e = Eos::new(b);
            if e.is_reached() != b || e.remaining_bytes() != want {
                c.fail(format!("Eos::new({}) is {:?}", b, e));
            }
        }
        if ByteCount::default() != ByteCount::Unknown {
            c.fail("the default byte count is not Unknown");
        }
    }
    c.sample(|| format!("{:?} against {} operands", a, p.len()));
}
fn random(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let one = |r: &mut Rng| match r.below(12) {
        0 => ByteCount::Infinite,
        1 => ByteCount::Unknown,
        _ => ByteCount::Finite(if r.chance(1, 3) { u64::MAX - r.edge() } else { r.edge() }),
    };
    for _ in 0..200 {
        let (a, b) = (one(&mut r), one(&mut r));
        single(c, a);
        pair(c, a, b);
        c.count("random_pairs");
    }
    // end marks moved back step by step agree with moving back at once
    let a = one(&mut r);
    let mut e = Eos::with_remaining_bytes(a);
    let mut sum = 0u64;
    for _ in 0..5 {
        let k = r.edge() >> r.below(64);
        e = e.back(k);
        sum = sum.saturating_add(k);
    }
    if e != Eos::with_remaining_bytes(a).back(sum) {
        c.fail(format!("moving {:?} back by {} in steps gives {:?}", a, sum, e));
    }
    c.sample(|| format!("{:?} back {}", a, sum));
}
/// A part of a tuple that reports what it was told to.
#[derive(Clone)]
struct Part {
    need: ByteCount,
    exact: u64,
    idle: bool,
}
impl Decode for Part {
    type Item = ();
    fn decode(&mut self, _: &[u8], _: Eos) -> bytecodec::Result<usize> {
        Ok(0)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.need
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}
impl Encode for Part {
    type Item = ();
    fn encode(&mut self, _: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        Ok(0)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.need
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}
impl SizedEncode for Part {
    fn exact_requiring_bytes(&self) -> u64 {
        self.exact
    }
}
/// What a tuple of these parts reports: as a decoder, as an encoder, exactly; and whether they are idle.
fn tuple_of(p: &[Part]) -> ([ByteCount; 2], u64, [bool; 2]) {
    macro_rules! t {
        ($($i:tt),*) => {{
            let d = TupleDecoder::new(($(p[$i].clone(),)*));
            let e = TupleEncoder::new(($(p[$i].clone(),)*));
            ([d.requiring_bytes(), e.requiring_bytes()], e.exact_requiring_bytes(), [d.is_idle(), e.is_idle()])
        }};
    }
    match p.len() {
        2 => t!(0, 1),
        3 => t!(0, 1, 2),
        4 => t!(0, 1, 2, 3),
        5 => t!(0, 1, 2, 3, 4),
        6 => t!(0, 1, 2, 3, 4, 5),
        7 => t!(0, 1, 2, 3, 4, 5, 6),
        _ => t!(0, 1, 2, 3, 4, 5, 6, 7),
    }
}
fn composed(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = 2 + r.us(7);
    let mode = r.below(4);
    let parts: Vec<Part> = (0..n)
        .map(|_| {
            let exact = match r.below(3) {
                0 => r.edge(),
                1 => r.below(10),
                _ => u64::MAX - r.below(20),
            };
            match r.below(if mode == 0 { 12 } else { 4 }) {
                // a part that is done needs no more
                0 => Part { need: ByteCount::Finite(0), exact: 0, idle: true },
                1 if mode != 3 => Part { need: ByteCount::Unknown, exact, idle: false },
                2 if mode == 1 => Part { need: ByteCount::Infinite, exact, idle: false },
                _ if mode == 2 => Part { need: ByteCount::Finite(r.below(4)), exact, idle: false },
                _ => Part { need: ByteCount::Finite(exact), exact, idle: false },
            }
        })
        .collect();
    let what = || format!("{:?}", parts.iter().map(|p| (p.need, p.exact, p.idle)).collect::<Vec<_>>());
    let want = [
        parts.iter().fold(ByteCount::Finite(0), |a, p| dec_sum(a, p.need)),
        parts.iter().fold(ByteCount::Finite(0), |a, p| enc_sum(a, p.need)),
    ];
    let exact = parts.iter().map(|p| p.exact as u128).sum::<u128>().min(u64::MAX as u128) as u64;
    let idle = parts.iter().all(|p| p.idle);
    let got = tuple_of(&parts);
    c.eval(Some(hash_of(&what())));
    c.count("tuples");
    if parts.iter().any(|p| p.need == ByteCount::Unknown) && want[0] != ByteCount::Unknown && want[0] != ByteCount::Infinite {
        c.count("lower_bounds");
    }
    for (i, side) in ["decoder", "encoder"].iter().enumerate() {
        if got.0[i] != want[i] {
            return c.fail(format!("tuple {} of parts (need, exact, idle) {} requires {:?} instead of {:?}", side, what(), got.0[i], want[i]));
        }
        if got.2[i] != idle {
            return c.fail(format!("tuple {} of parts (need, exact, idle) {} idle: {}", side, what(), got.2[i]));
        }
    }
    if got.1 != exact {
        return c.fail(format!("tuple encoder of parts (need, exact, idle) {} requires exactly {} instead of {}", what(), got.1, exact));
    }
    c.sample(what);
}
pub fn c22() -> Prop {
    let n = pool().len() as u64;
    Prop {
        id: "C22",
        stages: vec![stage("all_pairs", n, n, all_pairs), stage("random", 20_000, 400_000, random), stage("composed", 20_000, 2_000_000, composed)],
        rule: "all pairs of about 450 edge operands (small numbers, powers of two and their neighbours, the top of the range, Infinite, Unknown), and \
random pairs, against independently written tables; tuples of 2 to 8 scripted parts against the sums of the parts; distinct by pair or parts",
        must: &["pairs", "random_pairs", "tuples", "lower_bounds"],
        level: "exploration",
        findings: vec![],
    }
}
