//! C26: byte-level codecs, used directly with all their storage types and setters.
use super::common::*;
use bytecodec::bytes::*;
use bytecodec::null::*;
use bytecodec::padding::*;
use std::borrow::Cow;

/// A storage that counts and whose visible part is a window of a larger one.
#[derive(Clone, Debug)]
struct Win(Vec<u8>, usize, usize);
impl AsRef<[u8]> for Win {
    fn as_ref(&self) -> &[u8] {
        &self.0[self.1..self.2]
    }
}
impl AsMut<[u8]> for Win {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0[self.1..self.2]
    }
}

/// Feeds the stream in random pieces; expects completion at `need` bytes (if within the stream).
fn feed<D: Decode>(d: &mut D, b: &[u8], need: usize, r: &mut Rng, what: &str) -> Result<bool, String> {
    let total = b.len();
    let mut pos = 0;
    let mut last = false;
    let announce = r.bool();
    loop {
        if d.is_idle() != (pos == need) {
            return Err(format!("{}: idle is {} after {} of {} bytes", what, d.is_idle(), pos, need));
        }
        if d.requiring_bytes() != ByteCount::Finite((need - pos) as u64) {
            return Err(format!("{}: requires {:?} after {} of {} bytes", what, d.requiring_bytes(), pos, need));
        }
        if pos == need || last {
            break;
        }
        if let Err(k) = kind(d.finish_decoding().map(|_| ())) {
            if k != ErrorKind::IncompleteDecoding {
                return Err(format!("{}: finishing at {} of {} bytes: {:?}", what, pos, need, k));
            }
        } else {
            return Err(format!("{}: finished at {} of {} bytes", what, pos, need));
        }
        let k = if r.chance(1, 4) { total - pos } else { r.us((total - pos).min(2 + need / 3) + 1) };
        last = pos + k == total;
        let eos = if last {
            Eos::new(announce)
        } else if r.bool() {
            Eos::new(false)
        } else {
            Eos::with_remaining_bytes(ByteCount::Finite((total - pos - k) as u64))
        };
        let enough = pos + k >= need;
        match kind(d.decode(&b[pos..pos + k], eos)) {
            Ok(n) => {
                if n != k.min(need - pos) {
                    return Err(format!("{}: consumed {} of {} bytes at {} of {}", what, n, k, pos, need));
                }
                if eos.is_reached() && !enough {
                    return Err(format!("{}: the end at {} of {} bytes went unnoticed", what, pos + k, need));
                }
                pos += n;
            }
            Err(ErrorKind::UnexpectedEos) if eos.is_reached() && !enough => return Ok(false),
            Err(e) => return Err(format!("{}: failed with {:?} at {} of {} bytes ({:?})", what, e, pos, need, eos)),
        }
    }
    if pos == need {
        // idle decoders take nothing
        match kind(d.decode(&b[pos..], Eos::new(true))) {
            Ok(0) => {}
            x => return Err(format!("{}: idle, but decoding gave {:?}", what, x)),
        }
    }
    Ok(pos == need)
}

fn fixed(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = match r.below(4) {
        0 => r.us(4),
        1 | 2 => r.us(40),
        _ => r.us(3000),
    };
    let mode = r.below(7);
    let items = 1 + r.us(3);
    c.eval(Some(hash_of(&(n, mode, items, c.idx))));
    c.sample(|| format!("storage #{} of {} bytes, {} items", mode, n, items));
    macro_rules! copyable {
        ($($n:literal)*) => {{
            let sizes = [$($n),*];
            match *r.pick(&sizes) {
                $($n => {
                    let mut init = [0u8; $n];
                    init.iter_mut().for_each(|b| *b = r.byte());
                    let mut d = CopyableBytesDecoder::new(init);
                    for i in 0..items {
                        let cut = r.chance(1, 4) && $n > 0;
                        let extra = r.us(5);
                        let k = if cut { r.us($n) } else { $n + extra };
                        let b = r.bytes(k);
                        match feed(&mut d, &b, $n, &mut r, "CopyableBytesDecoder") {
                            Err(m) => return c.fail(m),
                            Ok(false) => return,
                            Ok(true) => {}
                        }
                        let x = kind(d.finish_decoding());
                        if x.as_ref().map(|x| &x[..]) != Ok(&b[..$n]) {
                            return c.fail(format!("CopyableBytesDecoder item #{} is {:?} instead of {:?}", i, x.map(|x| brief(&x)), brief(&b[..$n])));
                        }
                        c.count("copyable_items");
                    }
                    let _ = d.inner_ref();
    let _ = d.inner_mut();
                    let _ = d.into_inner();
                })*
                _ => unreachable!(),
            }
        }};
    }
    macro_rules! storage {
        ($name:expr, $mk:expr, $as:expr) => {{
            let mut mk = $mk;
            let first = mk(&mut r);
            let need = $as(&first).len();
            let mut need = need;
            let mut d = if r.bool() { BytesDecoder::new(first) } else {
                let mut d = BytesDecoder::default();
                if kind(d.decode(&[1], Eos::new(false))) != Err(ErrorKind::DecoderTerminated) || kind(d.finish_decoding().map(|_| ())) != Err(ErrorKind::DecoderTerminated) {
                    return c.fail("a BytesDecoder without storage does not report DecoderTerminated");
                }
                d.set_bytes(first);
                d
            };
            for i in 0..items {
                if r.chance(1, 5) && need > 0 {
                    // replaced in the middle of an item
                    let k = r.us(need);
                    let junk = r.bytes(k);
                    let _ = d.decode(&junk, Eos::new(false));
                    let s = mk(&mut r);
                    need = $as(&s).len();
                    d.set_bytes(s);
                    c.count("storage_replaced_midway");
                }
                let cut = r.chance(1, 4) && need > 0;
                let extra = r.us(5);
                let k = if cut { r.us(need) } else { need + extra };
                let b = r.bytes(k);
                match feed(&mut d, &b, need, &mut r, $name) {
                    Err(m) => return c.fail(m),
                    Ok(false) => return,
                    Ok(true) => {}
                }
                match kind(d.finish_decoding()) {
                    Ok(x) => {
                        if $as(&x) != &b[..need] {
                            return c.fail(format!("{} item #{} is {:?} instead of {:?}", $name, i, brief($as(&x)), brief(&b[..need])));
                        }
                    }
                    Err(k) => return c.fail(format!("{}: finishing a complete item: {:?}", $name, k)),
                }
                if kind(d.decode(&[1, 2], Eos::new(r.bool()))) != Err(ErrorKind::DecoderTerminated) || kind(d.finish_decoding().map(|_| ())) != Err(ErrorKind::DecoderTerminated) {
                    return c.fail(format!("{}: no DecoderTerminated after the item was taken", $name));
                }
                let s = mk(&mut r);
                need = $as(&s).len();
                d.set_bytes(s);
                c.count("oneshot_items");
            }
        }};
    }
    fn sl<T: AsRef<[u8]>>(t: &T) -> &[u8] {
        t.as_ref()
    }
    match mode {
        0 | 1 => copyable!(0 1 2 3 4 7 8 9 16 31 64 255 256 300 1024),
        2 => storage!("BytesDecoder<Vec>", |r: &mut Rng| { let k = r.us(n + 1); r.bytes(k) }, sl),
        3 => storage!("BytesDecoder<[u8; 5]>", |r: &mut Rng| [r.byte(); 5], sl),
        4 => storage!("BytesDecoder<Box<[u8]>>", |r: &mut Rng| { let k = r.us(n + 1); r.bytes(k).into_boxed_slice() }, sl),
        5 => storage!("BytesDecoder<window>", |r: &mut Rng| {
            let a = r.us(n + 1);
            let k = r.us(n + 1);
            let z = r.us(4);
            Win(r.bytes(a + k + z), a, a + k)
        }, sl),
        _ => {
            // borrowed storage: written in place, its surroundings untouched
            let (a, z) = (r.us(5), r.us(5));
            let mut store = r.bytes(a + n + z);
            let orig = store.clone();
            let b = r.bytes(n + 2);
            {
                let mut d = BytesDecoder::new(&mut store[a..a + n]);
                match feed(&mut d, &b, n, &mut r, "BytesDecoder<&mut [u8]>") {
                    Err(m) => return c.fail(m),
                    Ok(done) => {
                        if done && d.finish_decoding().is_err() {
                            return c.fail("finishing a complete item failed");
                        }
                        if !done {
                            return c.fail("not complete");
                        }
                    }
                }
            }
            if store[a..a + n] != b[..n] || store[..a] != orig[..a] || store[a + n..] != orig[a + n..] {
                return c.fail("borrowed storage holds wrong bytes");
            }
            c.count("oneshot_items");
        }
    }
}

fn rest(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let mut d = RemainingBytesDecoder::new();
    for _ in 0..1 + r.us(3) {
        let n = match r.below(8) {
            0 => 0,
            1 => 65_530 + r.us(12),
            2 => r.us(200_000),
            _ => r.us(200),
        };
        let b = r.bytes(n);
        let cuts = random_cuts(&mut r, n);
        let style = *r.pick(&[Style::Last, Style::Exact, Style::Empty, Style::Mixed]);
        let mut pos = 0;
        let mut segs: Vec<usize> = cuts.clone();
        if style == Style::Empty {
            segs.push(0);
        }
        let m = segs.len();
        for (i, k) in segs.into_iter().enumerate() {
            if d.is_idle() {
                // the end was announced together with the last byte: trailing empty segments
                break;
            }
            if !d.requiring_bytes().is_infinite() {
                return c.fail("does not report that it requires bytes without end");
            }
            if kind(d.finish_decoding()) != Err(ErrorKind::IncompleteDecoding) {
                return c.fail("finished before the end of the stream");
            }
            let eos = drive::eos_for(style, &mut r, pos + k, n, i + 1 == m);
            match kind(d.decode(&b[pos..pos + k], eos)) {
                Ok(x) if x == k => {}
                x => return c.fail(format!("decoding {} bytes gave {:?}", k, x)),
            }
            pos += k;
            if d.is_idle() != eos.is_reached() {
                return c.fail(format!("idle: {} though the hint was {:?}", d.is_idle(), eos));
            }
        }
        if !matches!(kind(d.decode(b"more", Eos::new(true))), Ok(0)) {
            return c.fail("takes more bytes behind the end");
        }
        match kind(d.finish_decoding()) {
            Ok(x) if x == b => {}
            x => return c.fail(format!("item is {} instead of {}", bdbg(&x.map(|x| x.len())), n)),
        }
        c.count("rest_items");
        c.add("rest_bytes", n as u64);
        c.eval(Some(hash_of(&(b, cuts, style))));
    }
    c.sample(|| "rest of stream".into());
}

/// UTF-8 validity straight from the definition (Unicode table 3-7), independent of the standard library.
fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 1..=n {
            let Some(&x) = b.get(i + k) else { return false };
            let (lo, hi) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if x < lo || x > hi {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
fn text_verdict(c: &mut Ctx, d: &mut Utf8Decoder, b: &[u8], cut: usize) {
    let want = utf8_ok(b);
    let r = (|| {
        d.decode(&b[..cut], Eos::new(false))?;
        d.decode(&b[cut..], Eos::new(true))?;
        d.finish_decoding()
    })();
    match kind(r) {
        Ok(s) if want && s.as_bytes() == b => {}
        Err(ErrorKind::InvalidInput) if !want => {}
        x => c.fail(format!("text decoder on {:?} (valid: {}): {:?}", brief(b), want, x)),
    }
    c.count(if want { "valid_texts" } else { "invalid_texts" });
}
/// All strings of up to 2 bytes, all 3-byte strings over interesting bytes, 4-byte ones over fewer.
fn utf8_all(c: &mut Ctx) {
    let a = c.idx as u8;
    let mut d = Utf8Decoder::new();
    const I3: [u8; 22] = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfe, 0xff];
    text_verdict(c, &mut d, &[a], 0);
    for b in 0..=255u8 {
        text_verdict(c, &mut d, &[a, b], 1);
        for x in I3 {
            text_verdict(c, &mut d, &[a, b, x], (b % 4) as usize);
            if a >= 0xe0 {
                for y in [0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xff] {
                    text_verdict(c, &mut d, &[a, b, x, y], (b % 5) as usize);
                }
            }
        }
        c.eval(Some(hash_of(&(a, b))));
        if !c.fails.is_empty() {
            return;
        }
    }
    c.sample(|| format!("texts starting with {:#04x}", a));
}
fn text(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(60);
    let mut b = gen_text(&mut r, n).into_bytes();
    for _ in 0..r.us(3) {
        if !b.is_empty() {
            let i = r.us(b.len());
            match r.below(3) {
                0 => b[i] = r.byte(),
                1 => {
                    b.remove(i);
                }
                _ => b.insert(i, r.byte()),
            }
        }
    }
    let want = utf8_ok(&b);
    let mut d = Utf8Decoder::new();
    let cut = r.us(b.len() + 1);
    text_verdict(c, &mut d, &b, cut);
    // with an inner decoder of its own
    let mut d = Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0xff; b.len()]));
    let tail = r.us(3);
    let mut s = b.clone();
    s.extend(r.bytes(tail));
    match feed(&mut d, &s, b.len(), &mut r, "Utf8Decoder<BytesDecoder>") {
        Err(m) => return c.fail(m),
        Ok(false) => return c.fail("text not complete"),
        Ok(true) => {}
    }
    match kind(d.finish_decoding()) {
        Ok(s) if want && s.as_bytes() == &b[..] => {}
        Err(ErrorKind::InvalidInput) if !want => {}
        x => return c.fail(format!("text decoder on {:?} (valid: {}): {:?}", brief(&b), want, x)),
    }
    let _ = d.inner_ref();
    let _ = d.inner_mut();
    // encoders over all text types
    if let Ok(t) = String::from_utf8(b.clone()) {
        fn run<S: AsRef<str>>(s: S, r: &mut Rng) -> Result<Vec<u8>, String> {
            let mut e = Utf8Encoder::new();
            e.start_encoding(s).map_err(|e| format!("start: {:?}", e.kind()))?;
            drain(&mut e, r)
        }
        let got = match r.below(5) {
            0 => run(&t[..], &mut r),
            1 => run(t.clone(), &mut r),
            2 => run(Cow::Borrowed(&t[..]), &mut r),
            3 => run(t.clone().into_boxed_str(), &mut r),
            _ => run(Rc::<str>::from(&t[..]), &mut r),
        };
        if got.as_ref() != Ok(&b) {
            return c.fail(format!("encoding {:?} gives {:?}", brief(&b), got));
        }
        c.count("texts_encoded");
    }
    c.eval(Some(hash_of(&(b, cut))));
    c.sample(|| format!("text of {} bytes", n));
}
/// Output of an encoder that knows its size, through random buffers.
fn drain<E: SizedEncode>(e: &mut E, r: &mut Rng) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let total = e.exact_requiring_bytes() as usize;
    let mut zero = 0;
    while !e.is_idle() {
        let left = total - out.len();
        if e.exact_requiring_bytes() as usize != left || e.requiring_bytes() != ByteCount::Finite(left as u64) {
            return Err(format!("claims {} ({:?}) bytes instead of {}", e.exact_requiring_bytes(), e.requiring_bytes(), left));
        }
        let k = if zero > 2 { left + 1 } else { r.us(left.min(50) + 2) };
        let mut buf = vec![0xa5; k];
        let eos = if k >= left && r.bool() { Eos::new(true) } else { Eos::new(false) };
        let n = e.encode(&mut buf, eos).map_err(|x| format!("{:?}", x.kind()))?;
        if n != k.min(left) {
            return Err(format!("wrote {} of {} bytes into {}", n, left, k));
        }
        zero = if n == 0 { zero + 1 } else { 0 };
        out.extend(&buf[..n]);
        if zero > 10 {
            return Err("no end".into());
        }
    }
    if e.exact_requiring_bytes() != 0 || out.len() != total {
        return Err(format!("idle after {} of {} bytes", out.len(), total));
    }
    Ok(out)
}
fn bytes_enc(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = if r.chance(1, 10) { r.us(70_000) } else { r.us(300) };
    let b = r.bytes(n);
    fn run<B: AsRef<[u8]>>(b: B, more: Option<B>, r: &mut Rng) -> Result<Vec<u8>, String> {
        let mut e = BytesEncoder::new();
        if !e.is_idle() || e.exact_requiring_bytes() != 0 {
            return Err("a new encoder is not idle".into());
        }
        e.start_encoding(b).map_err(|e| format!("start: {:?}", e.kind()))?;
        let out = drain(&mut e, r)?;
        if let Some(m) = more {
            e.start_encoding(m).map_err(|e| format!("second start: {:?}", e.kind()))?;
            if drain(&mut e, r)? != out {
                return Err("the second item differs".into());
            }
        }
        Ok(out)
    }
    let (got, want) = match r.below(7) {
        0 => (run(b.clone(), Some(b.clone()), &mut r), b.clone()),
        1 => (run(&b[..], Some(&b[..]), &mut r), b.clone()),
        2 => (run([7u8, 8, 9], Some([7, 8, 9]), &mut r), vec![7, 8, 9]),
        3 => (run(b.clone().into_boxed_slice(), None, &mut r), b.clone()),
        4 => (run(Cow::Borrowed(&b[..]), Some(Cow::Owned(b.clone())), &mut r), b.clone()),
        5 => (run("plain text", Some("plain text"), &mut r), b"plain text".to_vec()),
        _ => {
            let (a, z) = (r.us(n + 1), r.us(9));
            let mut w = r.bytes(a);
            w.extend(&b);
            w.extend(r.bytes(z));
            (run(Win(w, a, a + n), None, &mut r), b.clone())
        }
    };
    if got.as_ref() != Ok(&want) {
        c.fail(format!("encoding {} bytes gives {:?}", want.len(), got.map(|x| brief(&x))));
    }
    c.count("byte_strings_encoded");
    c.eval(Some(hash_bytes(&want)));
    c.sample(|| format!("{} bytes", want.len()));
}

fn padding(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    // decoder
    let x = c.idx as u8;
    let mut want = if r.chance(1, 5) { None } else { Some(x) };
    let mut d = if r.bool() { PaddingDecoder::new(want) } else {
        let mut d = PaddingDecoder::default();
        if d.expected_byte().is_some() {
            return c.fail("the default padding decoder expects some byte");
        }
        d.set_expected_byte(want);
        d
    };
    for _ in 0..1 + r.us(3) {
        if d.expected_byte() != want {
            return c.fail(format!("expected byte is {:?} instead of {:?}", d.expected_byte(), want));
        }
        let top = if r.chance(1, 10) { 5000 } else { 20 };
        let n = r.us(top);
        let mut b = vec![want.unwrap_or(0x11); n];
        if want.is_none() {
            b = r.bytes(n);
        }
        let bad = if want.is_some() && n > 0 && r.bool() {
            let i = *r.pick(&[0, n - 1, n / 2, n * 3 / 4]);
            b[i] ^= if r.bool() { 1 << r.us(8) } else { 1 + r.us(255) as u8 };
            Some(i)
        } else {
            None
        };
        let mut pos = 0;
        let cuts = random_cuts(&mut r, n);
        let m = cuts.len();
        let mut refused = false;
        for (i, k) in cuts.iter().copied().enumerate() {
            if d.requiring_bytes() != ByteCount::Infinite || d.is_idle() {
                return c.fail(format!("a waiting padding decoder requires {:?}", d.requiring_bytes()));
            }
            let eos = drive::eos_for(Style::Last, &mut r, pos + k, n, i + 1 == m);
            let has = bad.is_some_and(|j| j >= pos && j < pos + k);
            match kind(d.decode(&b[pos..pos + k], eos)) {
                Ok(y) if y == k && !has => {}
                Err(ErrorKind::InvalidInput) if has => {
                    refused = true;
                    break;
                }
                y => return c.fail(format!("padding of {:?}: decoding {:?} gave {:?}", want, brief(&b[pos..pos + k]), y)),
            }
            pos += k;
        }
        c.eval(Some(hash_of(&(want, &b, cuts))));
        if refused {
            c.count("padding_refused");
            return;
        }
        if bad.is_some() {
            return c.fail("a wrong padding byte was accepted");
        }
        if !d.is_idle() || d.requiring_bytes() != ByteCount::Finite(0) || !matches!(kind(d.decode(&[!x], Eos::new(true))), Ok(0)) {
            return c.fail("the padding decoder is not idle at the end of the stream");
        }
        if kind(d.finish_decoding()) != Ok(()) || kind(d.finish_decoding()) != Err(ErrorKind::IncompleteDecoding) {
            return c.fail("finishing at the end of the stream");
        }
        c.count("padding_accepted");
        if r.bool() {
            want = if r.bool() { None } else { Some(r.byte()) };
            d.set_expected_byte(want);
        }
    }
    // encoder
    let mut e = PaddingEncoder::new();
    if !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
        return c.fail("a new padding encoder is not idle");
    }
    let mut buf = [0x77u8; 9];
    if !matches!(kind(e.encode(&mut buf, Eos::new(true))), Ok(0)) || buf != [0x77; 9] {
        return c.fail("an idle padding encoder writes");
    }
    for round in 0..2u8 {
        let x = x.wrapping_add(round * 0x35);
        if e.start_encoding(x).is_err() {
            return c.fail("an idle padding encoder refuses a byte");
        }
        if kind(e.start_encoding(!x)) != Err(ErrorKind::EncoderFull) {
            return c.fail("a busy padding encoder takes another byte");
        }
        let calls = 1 + r.us(4);
        for i in 0..calls {
            let last = i + 1 == calls;
            let k = r.us(300);
            let mut buf = vec![!x; k];
            let eos = if last {
                Eos::new(true)
            } else {
                *r.pick(&[Eos::new(false), Eos::with_remaining_bytes(ByteCount::Finite(1)), Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX)), Eos::with_remaining_bytes(ByteCount::Infinite)])
            };
            if e.requiring_bytes() != ByteCount::Infinite || e.is_idle() {
                return c.fail("a busy padding encoder does not require infinitely many bytes");
            }
            match kind(e.encode(&mut buf, eos)) {
                Ok(n) if n == k && buf.iter().all(|&b| b == x) => {}
                y => return c.fail(format!("padding with {} reported {:?} for {} bytes: {:?}", x, y, k, brief(&buf))),
            }
            if e.is_idle() != last {
                return c.fail(format!("idle: {} after {:?}", e.is_idle(), eos));
            }
            c.count("padding_filled");
        }
        if e.requiring_bytes() != ByteCount::Finite(0) {
            return c.fail("an idle padding encoder requires bytes");
        }
    }
    c.sample(|| format!("padding {:#04x}", x));
}
fn null(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let n = r.us(20);
    let b = r.bytes(n);
    let eos = *r.pick(&[Eos::new(false), Eos::new(true), Eos::with_remaining_bytes(ByteCount::Finite(7)), Eos::with_remaining_bytes(ByteCount::Infinite)]);
    let mut d = NullDecoder;
    let mut e = NullEncoder;
    for _ in 0..3 {
        if !d.is_idle() || d.requiring_bytes() != ByteCount::Finite(0) || !matches!(kind(d.decode(&b, eos)), Ok(0)) || kind(d.finish_decoding()) != Ok(()) {
            return c.fail("null decoder");
        }
        if kind(e.start_encoding(())) != Ok(()) || !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) || e.exact_requiring_bytes() != 0 {
            return c.fail("null encoder");
        }
        let mut buf = b.clone();
        if !matches!(kind(e.encode(&mut buf, eos)), Ok(0)) || buf != b {
            return c.fail("null encoder wrote");
        }
        c.count("null_rounds");
    }
    c.eval(if n > 0 { Some(hash_of(&(b, n))) } else { None });
}
pub fn c26() -> Prop {
    Prop {
        id: "C26",
        stages: vec![
            stage("utf8_all", 256, 256, utf8_all),
            stage("fixed", 60_000, 1_500_000, fixed),
            stage("rest", 4_000, 60_000, rest),
            stage("text", 40_000, 1_000_000, text),
            stage("bytes_enc", 20_000, 400_000, bytes_enc),
            stage("padding", 40_000, 1_000_000, padding),
            stage("null", 500, 5_000, null),
        ],
        rule: "byte, text, padding and null codecs used directly with every storage type, setter and schedule, against the bytes given and an \
independent UTF-8 definition; distinct by bytes and schedule",
        must: &[
            "copyable_items", "oneshot_items", "storage_replaced_midway", "rest_items", "valid_texts", "invalid_texts", "texts_encoded",
            "byte_strings_encoded", "padding_refused", "padding_accepted", "padding_filled", "null_rounds",
        ],
        level: "exploration",
        findings: vec![],
    }
}
