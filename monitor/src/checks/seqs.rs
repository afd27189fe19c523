//! User-defined sequences written with the public macros `bytecodec_try_decode!` and
//! `bytecodec_try_encode!` (all arms), against a direct reading of what the macros document.
use super::common::*;
use std::rc::Rc;
use trackable::track;

type Log = Rc<RefCell<Vec<(usize, Vec<u8>, Eos)>>>;
/// A component: takes `need` bytes, a step at a time; may fail at a given call.
#[derive(Clone)]
struct Part {
    id: usize,
    need: usize,
    step: usize,
    fail_at: usize,
    kind: ErrorKind,
    calls: usize,
    log: Log,
}
impl Part {
    fn advance(&mut self, n: usize) -> Result<usize, ErrorKind> {
        self.calls += 1;
        if self.calls == self.fail_at {
            return Err(self.kind);
        }
        let k = self.need.min(self.step).min(n);
        self.need -= k;
        Ok(k)
    }
}
struct D(Part);
struct E(Part);
impl Decode for D {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.log.borrow_mut().push((self.0.id, buf.to_vec(), eos));
        self.0.advance(buf.len()).map_err(|k| k.into())
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.0.need as u64)
    }
}
impl Encode for E {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.log.borrow_mut().push((self.0.id, vec![0; buf.len()], eos));
        let k = self.0.advance(buf.len()).map_err(Error::from)?;
        buf[..k].fill(self.0.id as u8 + 1);
        Ok(k)
    }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.0.need as u64)
    }
}
struct SeqD {
    p: [D; 4],
}
struct SeqE {
    p: [E; 4],
}
impl SeqD {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut offset = 0;
        bytecodec::bytecodec_try_decode!(self.p[0], offset, buf, eos);
        bytecodec::bytecodec_try_decode!(self.p[1], offset, buf, eos, "part {}", 1);
        bytecodec::bytecodec_try_decode!(self.p[2], offset, buf, eos; offset, eos);
        bytecodec::bytecodec_try_decode!(self.p[3], offset, buf, eos);
        Ok(offset)
    }
}
impl SeqE {
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut offset = 0;
        bytecodec::bytecodec_try_encode!(self.p[0], offset, buf, eos);
        bytecodec::bytecodec_try_encode!(self.p[1], offset, buf, eos, "part {}", 1);
        bytecodec::bytecodec_try_encode!(self.p[2], offset, buf, eos; offset, eos);
        bytecodec::bytecodec_try_encode!(self.p[3], offset, buf, eos);
        Ok(offset)
    }
}
fn run(c: &mut Ctx, enc: bool) {
    let mut r = Rng::new(c.rng.u64());
    let (l1, l2): (Log, Log) = Default::default();
    let fails = r.chance(1, 4);
    let mk = |id: usize, r: &mut Rng| Part {
        id,
        need: r.us(5),
        step: 1 + r.us(4),
        fail_at: if fails && r.chance(1, 3) { 1 + r.us(3) } else { 0 },
        kind: *r.pick(&mon::KINDS),
        calls: 0,
        log: l1.clone(),
    };
    let parts = [mk(0, &mut r), mk(1, &mut r), mk(2, &mut r), mk(3, &mut r)];
    let needs: Vec<_> = parts.iter().map(|p| (p.need, p.step, p.fail_at)).collect();
    let mut model = parts.clone();
    model.iter_mut().for_each(|p| p.log = l2.clone());
    let mut dec = SeqD { p: parts.clone().map(D) };
    let mut seq = SeqE { p: parts.map(E) };
    let mut sizes = vec![];
    for _ in 0..12 {
        let n = r.us(8);
        sizes.push(n);
        let eos = *r.pick(&[Eos::new(true), Eos::new(false), Eos::with_remaining_bytes(ByteCount::Finite(3))]);
        let mut buf = r.bytes(n);
        let mut mbuf = buf.clone();
        let got = if enc { kind(seq.encode(&mut buf, eos)) } else { kind(dec.decode(&buf, eos)) };
        // the documented expansion, part by part
        let mut offset = 0;
        let mut want = None;
        for p in model.iter_mut() {
            if p.need > 0 {
                p.log.borrow_mut().push((p.id, if enc { vec![0; n - offset] } else { mbuf[offset..].to_vec() }, eos));
                match p.advance(n - offset) {
                    Ok(k) => {
                        if enc {
                            mbuf[offset..][..k].fill(p.id as u8 + 1);
                        }
                        offset += k
                    }
                    Err(k) => {
                        want = Some(Err(k));
                        break;
                    }
                }
                if p.need > 0 {
                    want = Some(Ok(offset));
                    break;
                }
            }
        }
        let want = want.unwrap_or(Ok(offset));
        c.eval((offset > 0).then(|| hash_of(&(enc, &needs, &sizes, offset))));
        if got != want || buf != mbuf || *l1.borrow() != *l2.borrow() {
            return c.fail(format!(
                "a sequence of parts (bytes, step, failing call) {:?} written with the macros: call with {} bytes {:?} gave {:?} instead of {:?}; part calls {:?} instead of {:?}; buffer {:?} / {:?}",
                needs, n, eos, got, want, l1.borrow(), l2.borrow(), buf, mbuf
            ));
        }
        c.count(if want.is_err() { "macro_errors" } else { "macro_calls" });
    }
    c.sample(|| format!("{:?} calls {:?}", needs, sizes));
}
pub fn c17_macros(c: &mut Ctx) {
    run(c, false)
}
pub fn c18_macros(c: &mut Ctx) {
    run(c, true)
}
