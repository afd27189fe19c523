//! C23: borrowed, boxed and pass-through codecs, compared call for call on scripted codecs.
use super::common::*;
use bytecodec::{TaggedDecode, TryTaggedDecode};
use trackable::error::ErrorKindExt;

/// What a scripted codec saw.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// address, bytes, hint
    Decode(usize, Vec<u8>, Eos),
    Finish,
    Encode(usize, usize, Eos),
    Start(u64),
    Tag(u64),
}
/// A codec whose answers depend on its script only: lengths, errors, idleness and requirements are unrelated.
pub struct Script {
    seed: u64,
    step: Cell<u64>,
    pub log: Rc<RefCell<Vec<Ev>>>,
    errors: bool,
}
impl Script {
    pub fn new(seed: u64, errors: bool) -> Self {
        Script { seed, step: Cell::new(0), log: Default::default(), errors }
    }
    fn roll(&self, salt: u64) -> u64 {
        mix(self.seed ^ mix(self.step.get() * 64 + salt))
    }
    fn event(&self, e: Ev) -> Result<(), Error> {
        self.log.borrow_mut().push(e);
        self.step.set(self.step.get() + 1);
        if self.errors && self.roll(1) % 5 == 0 {
            return Err(mon::KINDS[self.roll(2) as usize % 7].cause("scripted").into());
        }
        Ok(())
    }
    fn count(&self) -> ByteCount {
        match self.roll(3) % 6 {
            0 => ByteCount::Unknown,
            1 => ByteCount::Infinite,
            2 => ByteCount::Finite(0),
            3 => ByteCount::Finite(self.roll(4)),
            _ => ByteCount::Finite(self.roll(4) % 20),
        }
    }
    fn idle(&self) -> bool {
        self.roll(5) % 2 == 0
    }
    fn take(&self, n: usize) -> usize {
        match self.roll(6) % 3 {
            0 => n,
            _ => (self.roll(7) % (n as u64 + 1)) as usize,
        }
    }
}
impl Decode for Script {
    type Item = u64;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.event(Ev::Decode(b.as_ptr() as usize, b.to_vec(), eos))?;
        Ok(self.take(b.len()))
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        self.event(Ev::Finish)?;
        Ok(self.roll(8))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.count()
    }
    fn is_idle(&self) -> bool {
        self.idle()
    }
}
impl Encode for Script {
    type Item = u64;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.event(Ev::Encode(b.as_ptr() as usize, b.len(), eos))?;
        let n = self.take(b.len());
        let x = self.roll(9);
        for (i, b) in b.iter_mut().enumerate().take(n) {
            *b = mix(x + i as u64) as u8;
        }
        Ok(n)
    }
    fn start_encoding(&mut self, x: u64) -> bytecodec::Result<()> {
        self.event(Ev::Start(x))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.count()
    }
    fn is_idle(&self) -> bool {
        self.idle()
    }
}
impl SizedEncode for Script {
    fn exact_requiring_bytes(&self) -> u64 {
        self.roll(4)
    }
}
impl TaggedDecode for Script {
    type Tag = u64;
    fn start_decoding(&mut self, t: u64) -> bytecodec::Result<()> {
        self.event(Ev::Tag(t))
    }
}
impl TryTaggedDecode for Script {
    type Tag = u64;
    fn try_start_decoding(&mut self, t: u64) -> bytecodec::Result<bool> {
        self.event(Ev::Tag(t))?;
        Ok(self.roll(10) % 2 == 0)
    }
}
/// Same, with the idleness derived from the requirement by the traits.
struct Derived(Script);
impl Decode for Derived {
    type Item = u64;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(b, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u64> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.count()
    }
}
impl Encode for Derived {
    type Item = u64;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(b, eos)
    }
    fn start_encoding(&mut self, x: u64) -> bytecodec::Result<()> {
        self.0.start_encoding(x)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.count()
    }
}
impl SizedEncode for Derived {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

/// Every call goes through a mutable reference.
struct ByRef<D: ?Sized>(RefCell<Box<D>>);
impl<D: ?Sized + Decode> Decode for ByRef<D> {
    type Item = D::Item;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut r: &mut D = &mut **self.0.get_mut();
        <&mut D as Decode>::decode(&mut r, b, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<D::Item> {
        let mut r: &mut D = &mut **self.0.get_mut();
        <&mut D as Decode>::finish_decoding(&mut r)
    }
    fn requiring_bytes(&self) -> ByteCount {
        let mut g = self.0.borrow_mut();
        let r: &mut D = &mut **g;
        <&mut D as Decode>::requiring_bytes(&r)
    }
    fn is_idle(&self) -> bool {
        let mut g = self.0.borrow_mut();
        let r: &mut D = &mut **g;
        <&mut D as Decode>::is_idle(&r)
    }
}
impl<D: ?Sized + Encode> Encode for ByRef<D> {
    type Item = D::Item;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut r: &mut D = &mut **self.0.get_mut();
        <&mut D as Encode>::encode(&mut r, b, eos)
    }
    fn start_encoding(&mut self, x: D::Item) -> bytecodec::Result<()> {
        let mut r: &mut D = &mut **self.0.get_mut();
        <&mut D as Encode>::start_encoding(&mut r, x)
    }
    fn requiring_bytes(&self) -> ByteCount {
        let mut g = self.0.borrow_mut();
        let r: &mut D = &mut **g;
        <&mut D as Encode>::requiring_bytes(&r)
    }
    fn is_idle(&self) -> bool {
        let mut g = self.0.borrow_mut();
        let r: &mut D = &mut **g;
        <&mut D as Encode>::is_idle(&r)
    }
}
impl<D: ?Sized + SizedEncode> SizedEncode for ByRef<D> {
    fn exact_requiring_bytes(&self) -> u64 {
        let mut g = self.0.borrow_mut();
        let r: &mut D = &mut **g;
        <&mut D as SizedEncode>::exact_requiring_bytes(&r)
    }
}

/// The plain side of a comparison: called directly, through none of the library's forwarding implementations.
enum Plain {
    Own(Script),
    Derived(Derived),
}
macro_rules! plain {
    ($self:expr, $t:ident, $m:ident $(, $a:expr)*) => {
        match $self {
            Plain::Own(s) => <Script as $t>::$m(s $(, $a)*),
            Plain::Derived(s) => <Derived as $t>::$m(s $(, $a)*),
        }
    };
}

type DD = Box<dyn Decode<Item = u64>>;
type DE = Box<dyn Encode<Item = u64>>;
type DS = Box<dyn SizedEncode<Item = u64>>;
const DEC_WRAPS: [&str; 11] = ["box", "box box dyn", "ref", "ref dyn", "map", "try_map", "map_err", "slice", "not omitted", "map_err other type", "box<dyn> in slice"];
const ENC_WRAPS: [&str; 11] = ["box", "box box dyn", "ref", "ref dyn", "map_from", "try_map_from", "map_err", "slice", "optional", "map_err other type", "box<dyn> in optional"];

/// An error type of the user's.
pub struct Mine(pub ErrorKind);
impl From<Mine> for Error {
    fn from(m: Mine) -> Error {
        m.0.cause("mine").into()
    }
}
fn wrap_dec<D: Decode<Item = u64> + 'static>(d: D, w: usize) -> DD {
    match w {
        0 => Box::new(Box::new(d)),
        1 => Box::new(Box::new(Box::new(d) as DD)),
        2 => Box::new(ByRef(RefCell::new(Box::new(d)))),
        3 => Box::new(ByRef(RefCell::new(Box::new(d) as DD))),
        4 => Box::new(d.map(|x| x)),
        5 => Box::new(d.try_map(|x| -> bytecodec::Result<u64> { Ok(x) })),
        6 => Box::new(DecodeExt::map_err(d, |e: Error| e)),
        7 => {
            let mut s = DecodeExt::slice(d);
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
        8 => Box::new(d.omit(false).map(|x: Option<u64>| x.expect("present"))),
        9 => Box::new(DecodeExt::map_err(d, |e: Error| Mine(*e.kind()))),
        _ => {
            let mut s = DecodeExt::slice(Box::new(d) as DD);
            s.set_consumable_bytes(u64::MAX);
            Box::new(s)
        }
    }
}
macro_rules! wrap_enc {
    ($d:expr, $w:expr, $dy:ty) => {{
        let d = $d;
        match $w {
            0 => Box::new(Box::new(d)) as $dy,
            1 => Box::new(Box::new(Box::new(d) as $dy)),
            2 => Box::new(ByRef(RefCell::new(Box::new(d)))),
            3 => Box::new(ByRef(RefCell::new(Box::new(d) as $dy))),
            4 => Box::new(d.map_from(|x: u64| x)),
            5 => Box::new(d.try_map_from(|x: u64| -> bytecodec::Result<u64> { Ok(x) })),
            6 => Box::new(EncodeExt::map_err(d, |e: Error| e)),
            7 => {
                let mut s = EncodeExt::slice(d);
                s.set_consumable_bytes(u64::MAX);
                Box::new(s)
            }
            8 => Box::new(d.optional().map_from(|x: u64| Some(x))),
            9 => Box::new(EncodeExt::map_err(d, |e: Error| Mine(*e.kind()))),
            _ => Box::new((Box::new(d) as $dy).optional().map_from(|x: u64| Some(x))),
        }
    }};
}

fn some_eos(r: &mut Rng) -> Eos {
    match r.below(6) {
        0 => Eos::new(true),
        1 => Eos::new(false),
        2 => Eos::with_remaining_bytes(ByteCount::Infinite),
        3 => Eos::with_remaining_bytes(ByteCount::Finite(r.edge())),
        _ => Eos::with_remaining_bytes(ByteCount::Finite(r.below(5))),
    }
}
fn dec_pair(c: &mut Ctx, a: &mut Plain, b: &mut DD, la: &RefCell<Vec<Ev>>, lb: &RefCell<Vec<Ev>>, r: &mut Rng, what: &str) {
    let data = r.bytes(64);
    for i in 0..20 {
        let x = (plain!(&*a, Decode, requiring_bytes), plain!(&*a, Decode, is_idle));
        let y = (b.requiring_bytes(), b.is_idle());
        if x != y {
            return c.fail(format!("{}: before call #{} the wrapped decoder reports {:?}, the plain one {:?}", what, i, y, x));
        }
        let (x, y) = if r.chance(1, 4) {
            (kind(plain!(&mut *a, Decode, finish_decoding)), kind(b.finish_decoding()))
        } else {
            let k = r.us(20);
            let o = r.us(40);
            let e = some_eos(r);
            (kind(plain!(&mut *a, Decode, decode, &data[o..o + k], e)).map(|x| x as u64), kind(b.decode(&data[o..o + k], e)).map(|x| x as u64))
        };
        if x != y {
            return c.fail(format!("{}: call #{} of the wrapped decoder gave {:?}, of the plain one {:?}", what, i, y, x));
        }
        if *la.borrow() != *lb.borrow() {
            return c.fail(format!("{}: call #{} reached the wrapped decoder as {:?}, the plain one as {:?}", what, i, lb.borrow().last(), la.borrow().last()));
        }
        c.count("decoder_calls_compared");
    }
}
fn decoders(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..4 {
        let seed = r.u64();
        let errors = r.bool();
        let derived = r.chance(1, 3);
        let n = if c.idx < 11 { 1 } else { 1 + r.us(4) };
        let ws: Vec<usize> = (0..n).map(|i| if c.idx < 11 && i == 0 { c.idx as usize } else { r.us(11) }).collect();
        let (s, t) = (Script::new(seed, errors), Script::new(seed, errors));
        let (la, lb) = (s.log.clone(), t.log.clone());
        let (mut a, mut b): (Plain, DD);
        if derived {
            a = Plain::Derived(Derived(s));
            b = wrap_dec(Derived(t), ws[0]);
        } else {
            a = Plain::Own(s);
            b = wrap_dec(t, ws[0]);
        }
        for &w in &ws[1..] {
            b = wrap_dec(b, w);
        }
        let what = ws.iter().map(|&w| DEC_WRAPS[w]).collect::<Vec<_>>().join(" in ");
        dec_pair(c, &mut a, &mut b, &la, &lb, &mut r, &what);
        c.eval(Some(hash_of(&(seed, &ws, derived))));
        c.sample(|| what);
    }
}
fn enc_pair<E: Encode<Item = u64> + ?Sized>(c: &mut Ctx, a: &mut Plain, b: &mut Box<E>, la: &RefCell<Vec<Ev>>, lb: &RefCell<Vec<Ev>>, r: &mut Rng, what: &str, exact: Option<&dyn Fn(&Box<E>) -> u64>) {
    let mut buf = r.bytes(64);
    for i in 0..20 {
        let x = (plain!(&*a, Encode, requiring_bytes), plain!(&*a, Encode, is_idle), exact.map(|_| plain!(&*a, SizedEncode, exact_requiring_bytes)));
        let y = (b.requiring_bytes(), b.is_idle(), exact.map(|f| f(b)));
        if x != y {
            return c.fail(format!("{}: before call #{} the wrapped encoder reports {:?}, the plain one {:?}", what, i, y, x));
        }
        if r.chance(1, 4) {
            let v = r.u64();
            let (x, y) = (kind(plain!(&mut *a, Encode, start_encoding, v)), kind(b.start_encoding(v)));
            if x != y {
                return c.fail(format!("{}: start #{} of the wrapped encoder gave {:?}, of the plain one {:?}", what, i, y, x));
            }
        } else {
            let k = r.us(20);
            let o = r.us(40);
            let e = some_eos(r);
            let old = buf.clone();
            let x = kind(plain!(&mut *a, Encode, encode, &mut buf[o..o + k], e));
            let after = buf.clone();
            buf.copy_from_slice(&old);
            let y = kind(b.encode(&mut buf[o..o + k], e));
            if x != y || after != buf {
                return c.fail(format!("{}: encode #{} of the wrapped encoder gave {:?}, of the plain one {:?}; same bytes: {}", what, i, y, x, after == buf));
            }
        }
        if *la.borrow() != *lb.borrow() {
            return c.fail(format!("{}: call #{} reached the wrapped encoder as {:?}, the plain one as {:?}", what, i, lb.borrow().last(), la.borrow().last()));
        }
        c.count("encoder_calls_compared");
    }
}
fn encoders(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    for _ in 0..4 {
        let seed = r.u64();
        let errors = r.bool();
        let derived = r.chance(1, 3);
        let n = if c.idx < 11 { 1 } else { 1 + r.us(4) };
        let ws: Vec<usize> = (0..n).map(|i| if c.idx < 11 && i == 0 { c.idx as usize } else { r.us(11) }).collect();
        let (s, t) = (Script::new(seed, errors), Script::new(seed, errors));
        let (la, lb) = (s.log.clone(), t.log.clone());
        let what = ws.iter().map(|&w| ENC_WRAPS[w]).collect::<Vec<_>>().join(" in ");
        macro_rules! go {
            ($dy:ty, $exact:expr) => {{
                let (mut a, mut b): (Plain, $dy);
                if derived {
                    a = Plain::Derived(Derived(s));
                    b = wrap_enc!(Derived(t), ws[0], $dy);
                } else {
                    a = Plain::Own(s);
                    b = wrap_enc!(t, ws[0], $dy);
                }
                for &w in &ws[1..] {
                    b = wrap_enc!(b, w, $dy);
                }
                enc_pair(c, &mut a, &mut b, &la, &lb, &mut r, &what, $exact);
            }};
        }
        if r.bool() {
            go!(DS, Some(&|e: &DS| e.exact_requiring_bytes()));
        } else {
            go!(DE, None);
        }
        c.eval(Some(hash_of(&(seed, &ws, derived, 1))));
        c.sample(|| what);
    }
}
fn tagged(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let seed = r.u64();
    let which = r.below(6);
    let mut a = Script::new(seed, true);
    let mut b = Script::new(seed, true);
    let (la, lb) = (a.log.clone(), b.log.clone());
    let data = r.bytes(20);
    fn plain<D: TaggedDecode<Tag = u64, Item = u64>>(d: &mut D, t: u64) -> Result<bool, ErrorKind> {
        kind(d.start_decoding(t)).map(|_| true)
    }
    fn tried<D: TryTaggedDecode<Tag = u64, Item = u64>>(d: &mut D, t: u64) -> Result<bool, ErrorKind> {
        kind(d.try_start_decoding(t))
    }
    for i in 0..12 {
        let t = r.u64();
        let try_ = r.bool();
        let x = if try_ { tried(&mut a, t) } else { plain(&mut a, t) };
        let y = {
            let q = &mut b;
            match (which, try_) {
                (0, false) => plain(&mut { q }, t),
                (0, true) => tried(&mut { q }, t),
                (1, false) => plain(&mut Box::new(q), t),
                (1, true) => tried(&mut Box::new(q), t),
                (2, false) => plain::<&mut dyn TaggedDecode<Tag = u64, Item = u64>>(&mut { q as &mut dyn TaggedDecode<Tag = u64, Item = u64> }, t),
                (2, true) => tried::<&mut dyn TryTaggedDecode<Tag = u64, Item = u64>>(&mut { q as &mut dyn TryTaggedDecode<Tag = u64, Item = u64> }, t),
                (3, false) => {
                    let mut d: Box<dyn TaggedDecode<Tag = u64, Item = u64> + '_> = Box::new(q);
                    plain(&mut d, t)
                }
                (3, true) => {
                    let mut d: Box<dyn TryTaggedDecode<Tag = u64, Item = u64> + '_> = Box::new(q);
                    tried(&mut d, t)
                }
                (4, false) => plain(&mut Box::new(&mut Box::new(q)), t),
                (4, true) => tried(&mut Box::new(&mut Box::new(q)), t),
                (_, false) => plain(&mut &mut Box::new(&mut *q), t),
                (_, true) => tried(&mut &mut Box::new(&mut *q), t),
            }
        };
        if x != y || *la.borrow() != *lb.borrow() {
            return c.fail(format!("tag #{} through wrapper {} (try: {}): {:?} instead of {:?}; {:?} / {:?}", i, which, try_, y, x, lb.borrow().last(), la.borrow().last()));
        }
        // the tagged decoder still decodes as such
        let (p, q) = (kind(a.decode(&data, Eos::new(false))), kind(Decode::decode(&mut Box::new(&mut b), &data, Eos::new(false))));
        if p != q {
            return c.fail(format!("after the tag: {:?} instead of {:?}", q, p));
        }
        c.count("tags_compared");
    }
    c.eval(Some(hash_of(&(seed, which))));
    c.sample(|| format!("tagged wrapper {}", which));
}
/// Tolerating the end of the stream alters nothing but the announcement of it before an item's first byte.
pub fn maybe_eos(c: &mut Ctx) {
    let mut r = Rng::new(c.rng.u64());
    let seed = r.u64();
    let s = Script::new(seed, false);
    let t = Script::new(seed, false);
    let (la, lb) = (s.log.clone(), t.log.clone());
    let (mut a, mut b) = (s, t.maybe_eos());
    let data = r.bytes(64);
    let mut started = false;
    for i in 0..24 {
        let x = (Decode::requiring_bytes(&a), Decode::is_idle(&a));
        let y = (b.requiring_bytes(), b.is_idle());
        if x != y {
            return c.fail(format!("before call #{} the tolerating decoder reports {:?}, the plain one {:?}", i, y, x));
        }
        let (x, y) = if x.1 && r.chance(1, 3) {
            started = false;
            (kind(a.finish_decoding()), kind(b.finish_decoding()))
        } else {
            let k = if r.chance(1, 3) { 0 } else { r.us(20) };
            let o = r.us(40);
            let e = some_eos(&mut r);
            let silent = !started && k == 0 && e.is_reached();
            let want = if silent { Eos::new(false) } else { e };
            let x = kind(Decode::decode(&mut a, &data[o..o + k], want)).map(|x| x as u64);
            let y = kind(b.decode(&data[o..o + k], e)).map(|x| x as u64);
            started |= x.map_or(false, |n| n > 0);
            c.count(if silent { "ends_withheld" } else { "hints_passed" });
            (x, y)
        };
        if x != y {
            return c.fail(format!("call #{} of the tolerating decoder gave {:?}, of the plain one {:?}", i, y, x));
        }
        if *la.borrow() != *lb.borrow() {
            return c.fail(format!("call #{} reached the tolerating decoder's inner one as {:?} instead of {:?}", i, lb.borrow().last(), la.borrow().last()));
        }
    }
    c.eval(Some(hash_of(&(seed, &data))));
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        stages: vec![
            stage("decoders", 20_000, 500_000, decoders),
            stage("encoders", 20_000, 500_000, encoders),
            stage("tagged", 10_000, 200_000, tagged),
        ],
        rule: "a scripted codec (arbitrary lengths, errors, idleness, requirements) and an identical one behind one to four wrappers get the same calls; \
what reaches them and what comes back is compared; distinct by script and wrappers",
        must: &["decoder_calls_compared", "encoder_calls_compared", "tags_compared"],
        level: "exploration",
        findings: vec![],
    }
}
