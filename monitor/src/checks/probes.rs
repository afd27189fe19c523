//! Probes of the known findings: what of them still manifests on this tree.
use super::common::*;
use bytecodec::fixnum::*;

pub fn k1() -> Option<String> {
    let e = U16beEncoder::new().last(0x1234);
    let claimed = e.exact_requiring_bytes();
    let mut e = e;
    let mut out = vec![0; 16];
    let n = e.encode(&mut out, Eos::new(false)).ok()?;
    (claimed != n as u64).then(|| format!("U16beEncoder::new().last(0x1234): exact_requiring_bytes() reports {} and {} bytes follow", claimed, n))
}
pub fn k2() -> Option<String> {
    let mut e = U8Encoder::new().chain(U24beEncoder::new());
    let x = kind(e.start_encoding((7, u32::MAX)));
    if x.is_ok() {
        return Some("an out-of-range u24 is accepted by a tuple".into());
    }
    let busy = !e.is_idle();
    let y = kind(e.start_encoding((1, 2)));
    (busy || y.is_err()).then(|| format!("(U8, U24be): after the item (7, 2^32-1) was refused with {:?} the encoder is idle: {}, and (1, 2) gives {:?}", x, !busy, y))
}
pub fn k3() -> Option<String> {
    let mut e = U24beEncoder::new().repeat::<std::vec::IntoIter<u32>>().pre_encode();
    let x = kind(e.start_encoding(vec![1, u32::MAX].into_iter()));
    let y = kind(e.start_encoding(vec![1, 2].into_iter()));
    y.is_err().then(|| format!("U24be.repeat().pre_encode(): after [1, 2^32-1] was refused with {:?}, [1, 2] gives {:?}", x, y))
}
pub fn k5() -> Option<String> {
    let r = std::panic::catch_unwind(|| {
        let mut d = bytecodec::bincode_codec::BincodeDecoder::<String>::new();
        let _ = d.decode(&[0xff; 9], Eos::new(true));
    });
    r.err().map(|_| format!("BincodeDecoder<String> on [ff; 9]: panic ({})", crate::run::last_panic()))
}
