//! Drivers: present a stream to a decoder, or output buffers to an encoder, under a given schedule, and
//! compare the observed course with the reference model.
use crate::mk::DynDec;
use crate::mon;
use crate::refm::{bit, Course, CourseEnd};
use crate::rng::Rng;
use crate::value::Value;
use bytecodec::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    /// end unknown until the last segment, which announces it
    Last,
    /// exact number of remaining bytes at every call
    Exact,
    /// announced by a separate empty call
    Empty,
    /// each call truthfully says either nothing or the exact remainder; the end is announced
    Mixed,
    /// the stream stays open (Unknown)
    Never,
    /// the stream stays open (Infinite)
    Infinite,
}
pub const STYLES: [Style; 6] = [Style::Last, Style::Exact, Style::Empty, Style::Mixed, Style::Never, Style::Infinite];
impl Style {
    pub fn open(self) -> bool {
        matches!(self, Style::Never | Style::Infinite)
    }
}

/// Segmentations as lists of segment lengths.
pub fn cuts_from_mask(n: usize, mask: u64) -> Vec<usize> {
    let mut v = vec![];
    let mut len = 0;
    for i in 0..n {
        len += 1;
        if i + 1 == n || mask >> i & 1 == 1 {
            v.push(len);
            len = 0;
        }
    }
    if n == 0 {
        v.push(0);
    }
    v
}
pub fn random_cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let mode = r.below(6);
    let fixed = *r.pick(&[1usize, 2, 3, 7, 16, 255, 256, 1023, 1024, 1025, 4096]);
    if r.chance(1, 6) {
        v.push(0);
    }
    while left > 0 {
        let k = match mode {
            0 => left,
            1 => 1 + r.us(3),
            2 => 1 + r.us(left),
            3 => fixed,
            4 => {
                if r.chance(1, 3) {
                    1
                } else {
                    1 + r.us(left)
                }
            }
            _ => {
                if n > 4096 {
                    1 + r.us(2000)
                } else {
                    1
                }
            }
        }
        .min(left);
        v.push(k);
        left -= k;
        if r.chance(1, 8) {
            v.push(0);
        }
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Err(ErrorKind),
    /// everything was presented, the item is not complete
    Incomplete,
    /// contract break noticed by the driver
    Broken(String),
}
#[derive(Clone, Debug)]
pub struct Seen {
    pub items: Vec<(std::result::Result<Value, ErrorKind>, usize)>,
    pub end: End,
    /// bytes presented when the end occurred
    pub presented: usize,
    pub consumed: usize,
}

#[derive(Clone, Copy, Default)]
pub struct DecOpt {
    pub max_items: usize,
    /// also call decode on idle decoders
    pub poke_idle: bool,
    /// stop at the first refused item
    pub stop_on_refusal: bool,
}

pub fn eos_for(style: Style, r: &mut Rng, end: usize, total: usize, last: bool) -> Eos {
    let left = (total - end) as u64;
    match style {
        Style::Last => Eos::new(last),
        Style::Exact => Eos::with_remaining_bytes(ByteCount::Finite(left)),
        Style::Empty => Eos::new(last),
        Style::Mixed => {
            if last || r.bool() {
                Eos::with_remaining_bytes(ByteCount::Finite(left))
            } else {
                Eos::new(false)
            }
        }
        Style::Never => Eos::new(false),
        Style::Infinite => Eos::with_remaining_bytes(ByteCount::Infinite),
    }
}

/// `stream` must live in one allocation: segments are sub-slices of it.
pub fn decode(d: &mut DynDec, stream: &[u8], cuts: &[usize], style: Style, r: &mut Rng, o: DecOpt) -> Seen {
    mon::with(|t| {
        t.stream = Some((stream.as_ptr() as usize, stream.len()));
        t.open = style.open();
    });
    let total = stream.len();
    let mut pos = 0;
    let mut items: Vec<(std::result::Result<Value, ErrorKind>, usize)> = vec![];
    let mut segs: Vec<(usize, usize)> = vec![];
    let mut a = 0;
    for &c in cuts {
        segs.push((a, a + c));
        a += c;
    }
    assert_eq!(a, total, "HARNESS: cuts");
    if style == Style::Empty {
        segs.push((total, total));
    }
    let nseg = segs.len();
    let mut presented = 0;
    let end = 'out: {
        for (i, &(s, e)) in segs.iter().enumerate() {
            let last = i + 1 == nseg;
            // A truthful unknown-until-last style may not announce the end before the last segment,
            // and an exact one announces it together with the last byte.
            debug_assert!(pos <= e);
            presented = presented.max(e);
            let _ = s;
            let mut calls = 0;
            loop {
                calls += 1;
                if calls > 4 * (e - s) + 64 {
                    break 'out End::Broken("too many calls without progress".into());
                }
                let eos = eos_for(style, r, e, total, last);
                let before = d.is_idle();
                if !before || o.poke_idle {
                    match d.decode(&stream[pos..e], eos) {
                        Ok(n) => {
                            if n > e - pos {
                                break 'out End::Broken(format!("consumed {} of {} bytes", n, e - pos));
                            }
                            if before && n > 0 {
                                break 'out End::Broken(format!("consumed {} bytes while idle", n));
                            }
                            pos += n;
                        }
                        Err(x) => break 'out End::Err(*x.kind()),
                    }
                }
                if d.is_idle() {
                    let it = d.finish_decoding().map_err(|e| *e.kind());
                    let inc = it == Err(ErrorKind::IncompleteDecoding) || (o.stop_on_refusal && it.is_err());
                    items.push((it, pos));
                    if items.len() == o.max_items || pos == total || inc {
                        break 'out End::Done;
                    }
                    if pos == e {
                        break;
                    }
                } else {
                    if pos < e {
                        break 'out End::Broken(format!("left {} bytes without being idle", e - pos));
                    }
                    break;
                }
            }
        }
        End::Incomplete
    };
    Seen { items, end, presented, consumed: pos }
}

/// Compares what was seen with the reference; `None` if they agree.
pub fn judge(c: &Course, s: &Seen, style: Style) -> Option<String> {
    if c.end == CourseEnd::Ill {
        return None;
    }
    if let End::Broken(m) = &s.end {
        return Some(m.clone());
    }
    for (i, (got, pos)) in s.items.iter().enumerate() {
        let Some((want, wpos, needs)) = c.items.get(i) else {
            // a region that is cut short by the end of the stream, with an inner item that was too short anyway
            if got.is_err() && c.end == CourseEnd::Fail(crate::refm::ANY) && i == c.items.len() {
                return None;
            }
            return Some(format!("item #{} {:?} appeared, but the stream has only {} items (then {:?})", i, crate::bdbg(got), c.items.len(), c.end));
        };
        let same = match (got, want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(k), Err(m)) => m & bit(*k) != 0,
            _ => false,
        };
        if !same {
            return Some(format!("item #{} is {}, expected {}", i, crate::bdbg(got), crate::bdbg(want)));
        }
        if pos != wpos {
            return Some(format!("item #{} ended at {}, expected {}", i, pos, wpos));
        }
        if *needs && style.open() {
            return Some(format!("item #{} completed though the end of the stream was never announced", i));
        }
    }
    let next = c.items.get(s.items.len());
    match (&s.end, next, &c.end) {
        (End::Done, None, _) => None,
        (End::Done, Some(_), _) => {
            if s.consumed == c.items.last().unwrap().1 || s.items.len() < c.items.len() {
                // zero-width items at the very end of the stream
                let p = s.items.last().map_or(0, |x| x.1);
                if next.unwrap().1 == p {
                    return None;
                }
            }
            Some("stopped early".into())
        }
        (End::Incomplete, Some((_, wpos, needs)), _) => {
            if *needs && style.open() {
                None
            } else if style.open() && next.unwrap().0.is_err() && s.items.len() + 1 == c.items.len() && *needs {
                None
            } else {
                Some(format!("item #{} should be complete at {}, but is not after {} bytes", s.items.len(), wpos, s.presented))
            }
        }
        (End::Incomplete, None, CourseEnd::Fail(m)) => {
            // (a region cut short behind a complete inner item, followed by something that tolerates the end)
            if style.open() || *m == crate::refm::ANY {
                None
            } else {
                Some(format!("expected failure (mask {:#x}) was not reported although the end was announced", m))
            }
        }
        (End::Incomplete, None, CourseEnd::Pending) => None,
        (End::Incomplete, None, e) => Some(format!("unexpectedly incomplete ({:?})", e)),
        (End::Err(k), None, CourseEnd::Fail(m)) => {
            if m & bit(*k) != 0 {
                None
            } else {
                Some(format!("failed with {:?}, expected mask {:#x}", k, m))
            }
        }
        (End::Err(k), _, e) => Some(format!("failed with {:?} at item #{} ({} bytes consumed), expected item {} / {:?}", k, s.items.len(), s.consumed, crate::bdbg(&next), e)),
        (End::Broken(_), _, _) => unreachable!(),
    }
}

/// Outcome of an encode drive.
#[derive(Debug)]
pub struct EncSeen {
    pub out: Vec<u8>,
    pub end: std::result::Result<(), ErrorKind>,
    pub broken: Option<String>,
    pub calls: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OutStyle {
    /// never told about the end
    Open,
    /// the exact space behind the buffer, `slack` bytes more than needed
    Exact(u64),
    /// Infinite space
    Infinite,
}

/// Drains an encoder through buffers of the given sizes (cycled); `need`: total bytes still to come.
pub fn encode(e: &mut dyn Encode<Item = Value>, sizes: &[usize], style: OutStyle, need: usize) -> EncSeen {
    let mut out = vec![];
    let mut calls = 0;
    let maxlen = need + 1 + 64;
    let mut buf = vec![0u8; sizes.iter().copied().max().unwrap_or(1).max(1)];
    let mut i = 0;
    let mut zero = 0;
    let capacity = match style {
        OutStyle::Exact(s) => Some(need as u64 + s),
        _ => None,
    };
    let mut tick: u8 = 0x5a;
    while !e.is_idle() {
        let mut n = if zero > 3 { 1 } else { sizes[i % sizes.len()] };
        i += 1;
        let mut eos = Eos::new(false);
        if let Some(c) = capacity {
            n = n.min((c - out.len() as u64) as usize);
            eos = Eos::with_remaining_bytes(ByteCount::Finite(c - out.len() as u64 - n as u64));
        }
        if style == OutStyle::Infinite {
            eos = Eos::with_remaining_bytes(ByteCount::Infinite);
        }
        tick = tick.wrapping_mul(5).wrapping_add(3);
        buf[..n].iter_mut().for_each(|b| *b = tick);
        calls += 1;
        match e.encode(&mut buf[..n], eos) {
            Ok(k) => {
                if k > n {
                    return EncSeen { out, end: Ok(()), broken: Some(format!("reported {} bytes for a buffer of {}", k, n)), calls };
                }
                out.extend_from_slice(&buf[..k]);
                if k < n && !e.is_idle() {
                    return EncSeen { out, end: Ok(()), broken: Some(format!("left {} of {} bytes unused without being idle", n - k, n)), calls };
                }
                if k == 0 {
                    zero += 1;
                } else {
                    zero = 0;
                }
                if out.len() > maxlen || zero > 50 {
                    return EncSeen { broken: Some(format!("does not end: {} bytes instead of {}, {} idle rounds", out.len(), need, zero)), out, end: Ok(()), calls };
                }
            }
            Err(x) => return EncSeen { out, end: Err(*x.kind()), broken: None, calls },
        }
    }
    EncSeen { out, end: Ok(()), broken: None, calls }
}
