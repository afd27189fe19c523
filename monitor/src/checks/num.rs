//! C04: wire formats of fixed-width numbers.
use super::common::*;
use bytecodec::fixnum::*;

/// One value through fresh or reused real codecs, compared with an independent bit-level model.
trait Num {
    fn check(&mut self, c: &mut Ctx, bits: u64, chunked: bool);
    /// Values that do not fit (widths with a wider Rust type only).
    fn refuse(&mut self, c: &mut Ctx, bits: u64, next: u64, busy: bool);
}
struct N<E, D, T> {
    k: NumKind,
    e: E,
    d: D,
    to: fn(u64) -> T,
    from: fn(T) -> u64,
}
/// Wire bytes of the low `8 * w` bits.
fn wire(k: NumKind, bits: u64) -> ([u8; 8], usize) {
    let w = k.width();
    let mut o = [0; 8];
    for i in 0..w {
        let sh = if k.big() { 8 * (w - 1 - i) } else { 8 * i };
        o[i] = (bits >> sh) as u8;
    }
    (o, w)
}
impl<T: Copy, E: SizedEncode<Item = T>, D: Decode<Item = T>> Num for N<E, D, T> {
    fn check(&mut self, c: &mut Ctx, bits: u64, chunked: bool) {
        let k = self.k;
        let bits = bits & k.max();
        let (o, w) = wire(k, bits);
        let mut buf = [0xeeu8; 12];
        let e = &mut self.e;
        let mut bad = |m: String| c.fail(format!("{:?} {:#x}: {}", k, bits, m));
        if !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
            return bad(format!("encoder idle {} requires {:?} before", e.is_idle(), e.requiring_bytes()));
        }
        if let Err(x) = kind(e.start_encoding((self.to)(bits))) {
            return bad(format!("refused with {:?}", x));
        }
        if e.is_idle() || e.requiring_bytes() != ByteCount::Finite(w as u64) || e.exact_requiring_bytes() != w as u64 {
            return bad(format!("started encoder idle {} requires {:?}", e.is_idle(), e.requiring_bytes()));
        }
        let mut pos = 0;
        if chunked {
            let mut guard = 0;
            while !e.is_idle() && guard < 60 {
                guard += 1;
                let n = (hash_of(&(bits, guard)) % 4) as usize;
                match kind(e.encode(&mut buf[pos..(pos + n).min(12)], Eos::new(false))) {
                    Ok(m) => pos += m,
                    Err(x) => return bad(format!("encode: {:?}", x)),
                }
                if e.requiring_bytes() != ByteCount::Finite((w - pos.min(w)) as u64) {
                    return bad(format!("requires {:?} after {} of {}", e.requiring_bytes(), pos, w));
                }
            }
        } else {
            match kind(e.encode(&mut buf, Eos::new(false))) {
                Ok(m) => pos = m,
                Err(x) => return bad(format!("encode: {:?}", x)),
            }
        }
        if pos != w || buf[..w] != o[..w] || !e.is_idle() {
            return bad(format!("encoded as {:02x?} ({} bytes), expected {:02x?}", &buf[..pos.min(12)], pos, &o[..w]));
        }
        let d = &mut self.d;
        let mut input = [0x99u8; 12];
        input[..w].copy_from_slice(&o[..w]);
        let mut pos = 0;
        if d.is_idle() || d.requiring_bytes() != ByteCount::Finite(w as u64) {
            return bad(format!("decoder idle {} requires {:?} before", d.is_idle(), d.requiring_bytes()));
        }
        if chunked {
            let mut guard = 0;
            while !d.is_idle() && guard < 60 {
                guard += 1;
                let n = (hash_of(&(bits, guard, 1)) % 4) as usize;
                match kind(d.decode(&input[pos..(pos + n).min(12)], Eos::new(false))) {
                    Ok(m) => pos += m,
                    Err(x) => return bad(format!("decode: {:?}", x)),
                }
                if d.requiring_bytes() != ByteCount::Finite((w - pos.min(w)) as u64) {
                    return bad(format!("decoder requires {:?} after {} of {}", d.requiring_bytes(), pos, w));
                }
            }
        } else {
            match kind(d.decode(&input, Eos::new(false))) {
                Ok(m) => pos = m,
                Err(x) => return bad(format!("decode: {:?}", x)),
            }
        }
        if pos != w || !d.is_idle() {
            return bad(format!("decoder consumed {} of {}, idle {}", pos, w, d.is_idle()));
        }
        match kind(d.finish_decoding()) {
            Ok(v) if (self.from)(v) == bits => {}
            Ok(v) => bad(format!("decoded as {:#x}", (self.from)(v))),
            Err(x) => bad(format!("finish: {:?}", x)),
        }
    }
    fn refuse(&mut self, c: &mut Ctx, bits: u64, next: u64, busy: bool) {
        let k = self.k;
        let e = &mut self.e;
        let mut bad = |m: String| c.fail(format!("{:?} {:#x} (too wide): {}", k, bits, m));
        if busy {
            // refused while another value is under way: that one is unaffected
            let (o, w) = wire(k, next);
            let mut buf = [0u8; 12];
            let r = kind(e.start_encoding((self.to)(next))).and_then(|()| kind(e.encode(&mut buf[..1], Eos::new(false))));
            if r != Ok(1) {
                return bad(format!("first byte of {:#x}: {:?}", next, r));
            }
            if kind(e.start_encoding((self.to)(bits))).is_ok() {
                return bad("accepted while busy".into());
            }
            match kind(e.encode(&mut buf[1..], Eos::new(false))) {
                Ok(n) if n + 1 == w && buf[..w] == o[..w] => {}
                x => return bad(format!("rest of {:#x}: {:?} {:02x?}", next, x, buf)),
            }
        }
        match kind(e.start_encoding((self.to)(bits))) {
            Err(ErrorKind::InvalidInput) => {}
            x => return bad(format!("start_encoding gave {:?}", x)),
        }
        let mut buf = [0x5au8; 12];
        let r = kind(e.encode(&mut buf, Eos::new(false)));
        if r != Ok(0) || !e.is_idle() || e.exact_requiring_bytes() != 0 || buf != [0x5a; 12] {
            return bad(format!("then encode gave {:?} ({:02x?}), idle {}", r, buf, e.is_idle()));
        }
        self.check(c, next, false);
    }
}
fn codec(k: NumKind) -> Box<dyn Num> {
    macro_rules! go {
        ($($v:ident: $d:ident $e:ident, $to:expr, $from:expr;)*) => {
            match k {
                $(NumKind::$v => Box::new(N { k, e: $e::new(), d: $d::new(), to: $to, from: $from }),)*
            }
        };
    }
    go! {
        U8: U8Decoder U8Encoder, |b| b as u8, |v| v as u64;
        I8: I8Decoder I8Encoder, |b| b as i8, |v| v as u8 as u64;
        U16be: U16beDecoder U16beEncoder, |b| b as u16, |v| v as u64;
        U16le: U16leDecoder U16leEncoder, |b| b as u16, |v| v as u64;
        I16be: I16beDecoder I16beEncoder, |b| b as i16, |v| v as u16 as u64;
        I16le: I16leDecoder I16leEncoder, |b| b as i16, |v| v as u16 as u64;
        U24be: U24beDecoder U24beEncoder, |b| b as u32, |v| v as u64;
        U24le: U24leDecoder U24leEncoder, |b| b as u32, |v| v as u64;
        U32be: U32beDecoder U32beEncoder, |b| b as u32, |v| v as u64;
        U32le: U32leDecoder U32leEncoder, |b| b as u32, |v| v as u64;
        I32be: I32beDecoder I32beEncoder, |b| b as i32, |v| v as u32 as u64;
        I32le: I32leDecoder I32leEncoder, |b| b as i32, |v| v as u32 as u64;
        U40be: U40beDecoder U40beEncoder, |b| b, |v| v;
        U40le: U40leDecoder U40leEncoder, |b| b, |v| v;
        U48be: U48beDecoder U48beEncoder, |b| b, |v| v;
        U48le: U48leDecoder U48leEncoder, |b| b, |v| v;
        U56be: U56beDecoder U56beEncoder, |b| b, |v| v;
        U56le: U56leDecoder U56leEncoder, |b| b, |v| v;
        U64be: U64beDecoder U64beEncoder, |b| b, |v| v;
        U64le: U64leDecoder U64leEncoder, |b| b, |v| v;
        I64be: I64beDecoder I64beEncoder, |b| b as i64, |v| v as u64;
        I64le: I64leDecoder I64leEncoder, |b| b as i64, |v| v as u64;
        F32be: F32beDecoder F32beEncoder, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64;
        F32le: F32leDecoder F32leEncoder, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64;
        F64be: F64beDecoder F64beEncoder, f64::from_bits, f64::to_bits;
        F64le: F64leDecoder F64leEncoder, f64::from_bits, f64::to_bits;
    }
}

const SMALL: [NumKind; 6] = [NumKind::U8, NumKind::I8, NumKind::U16be, NumKind::U16le, NumKind::I16be, NumKind::I16le];
/// Every value of the 8- and 16-bit codecs.
fn all16(c: &mut Ctx) {
    let k = SMALL[(c.idx % 6) as usize];
    let hi = c.idx / 6;
    if k.width() == 1 && hi > 0 {
        return;
    }
    let mut n = codec(k);
    for lo in 0..256u64 {
        let v = hi * 256 + lo;
        n.check(c, v, false);
        n.check(c, v, true);
        c.eval(Some(hash_of(&(k, v))));
        c.count("exhausted_8_16_bit_values");
        if !c.fails.is_empty() {
            return;
        }
    }
}
/// Every value of the 24-bit codecs.
fn all24(c: &mut Ctx) {
    let k = if c.idx % 2 == 0 { NumKind::U24be } else { NumKind::U24le };
    let hi = c.idx / 2;
    let mut n = codec(k);
    for lo in 0..65536u64 {
        n.check(c, hi * 65536 + lo, lo % 16 == 5);
        if !c.fails.is_empty() {
            return;
        }
    }
    c.add("exhausted_24_bit_values", 65536);
    c.evals += 65536;
    c.nontrivial.insert(hash_of(&(k, hi)));
}
fn wide(r: &mut Rng, k: NumKind) -> u64 {
    let w = 8 * k.width() as u32;
    match r.below(8) {
        0 => k.max(),
        1 => 1u64 << r.below(w as u64),
        2 => (1u64 << r.below(w as u64)).wrapping_sub(1),
        3 => 1u64 << (w - 1),
        4 => {
            // each byte distinct
            let mut x = 0;
            for i in 0..8 {
                x = x << 8 | (r.below(31) * 8 + i);
            }
            x
        }
        5 => *r.pick(&[0u64, f32::NAN.to_bits() as u64, f64::NAN.to_bits(), 0x7f80_0001, 0xffc0_0001, 0x7ff0_0000_0000_0001, f64::INFINITY.to_bits(), 0x8000_0000, 1 << 63, (-0f64).to_bits()]),
        _ => r.u64(),
    }
}
fn random(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let k = NUMS[(c.idx % 26) as usize];
    let mut n = codec(k);
    for _ in 0..40 {
        let v = wide(&mut r, k);
        n.check(c, v, r.bool());
        c.eval(Some(hash_of(&(k, v))));
        c.count("random_values");
        if k.refusable() {
            let top = if k.width() == 3 { u32::MAX as u64 } else { u64::MAX };
            let lo = k.max() + 1;
            let big = match r.below(5) {
                0 => lo,
                1 => top,
                2 => lo | wide(&mut r, k) & k.max(),
                3 => 1u64 << r.range(8 * k.width() as u64, if k.width() == 3 { 31 } else { 63 }),
                _ => r.range(lo, top),
            };
            n.refuse(c, big, v & k.max(), r.bool());
            c.count("refusals");
        }
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("{:?}", k));
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        stages: vec![
            stage("all_8_16_bit", 6 * 256, 6 * 256, all16),
            stage("all_24_bit", 512, 512, all24),
            stage("random", 26 * 400, 26 * 40_000, random),
        ],
        rule: "all values of the 8-, 16- and 24-bit codecs; edge and random bit patterns of the others; refused values; whole and in chunks; \
distinct by codec and value",
        must: &["exhausted_8_16_bit_values", "exhausted_24_bit_values", "random_values", "refusals"],
        level: "exploration",
        findings: vec![],
    }
}
