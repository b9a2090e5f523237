//! Conformance harness core: dynamic view of the message wrappers of midi2.
pub mod bufs;
pub mod json;
pub use bufs::*;
pub use json::{bytes, s, J};
use midi2::buffer::*;
use midi2::prelude::*;

/// The aggregate packet type is only reachable as the item of PacketsIterator.
pub type Packet = <midi2::PacketsIterator<'static> as Iterator>::Item;
pub type Made = Result<Box<dyn Obj>, ()>;

pub trait Obj {
    fn ty(&self) -> &'static str;
    fn form(&self) -> char;
    fn data(&self) -> Vec<u8>;
    fn buf(&self) -> Option<Vec<u8>> { None }
    fn fields(&self) -> &'static [&'static str] { &[] }
    fn get(&self, _f: &str) -> J { panic!("harness: no field") }
    fn packets(&self) -> Option<Vec<Packet>> { None }
    fn pk_iter(&self, _calls: &J) -> Option<J> { None }
    fn payload_size(&self) -> Option<usize> { None }
    fn pl_iter(&self, _calls: &J) -> Option<J> { None }
    fn text(&self) -> Option<String> { None }
    fn tx_iter(&self, _calls: &J) -> Option<J> { None }
    fn set(&mut self, _f: &str, _v: &J) -> bool { false }
    fn set_text(&mut self, _v: &str) -> Option<Result<(), ()>> { None }
    fn sx(&mut self, _op: &J) -> Option<Result<(), ()>> { None }
    fn conv(self: Box<Self>, _api: &str, _to: &str) -> Option<Made> { None }
    fn rebuf(self: Box<Self>, _api: &str, _to: &str) -> Option<Made> { None }
    fn wrap(self: Box<Self>, _lvl: &str) -> Option<Box<dyn Obj>> { None }
    fn variant(&self) -> String { String::new() }
    fn reparse_eq(&self) -> Option<bool> { None }
}

pub fn oct32(x: &[u32]) -> Vec<u8> { x.iter().flat_map(|w| w.to_be_bytes()).collect() }
pub fn words(b: &[u8]) -> Vec<u32> { b.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect() }
pub trait Oct: UnitX { fn oct(x: &[Self]) -> Vec<u8>; fn un(x: &[u8]) -> Vec<Self>; }
impl Oct for u8 { fn oct(x: &[u8]) -> Vec<u8> { x.to_vec() } fn un(x: &[u8]) -> Vec<u8> { x.to_vec() } }
impl Oct for u32 { fn oct(x: &[u32]) -> Vec<u8> { oct32(x) } fn un(x: &[u8]) -> Vec<u32> { words(x) } }

/// Observer of the storage behind a message.
pub enum Obs { No, V(usize), S(usize, usize) }
impl Obs {
    pub fn read<U: Oct>(&self) -> Option<Vec<u8>> {
        match self {
            Obs::No => None,
            Obs::V(p) => Some(U::oct(unsafe { &*(*p as *const Vec<U>) })),
            Obs::S(p, n) => Some(U::oct(unsafe { std::slice::from_raw_parts(*p as *const U, *n) })),
        }
    }
    pub fn last() -> Obs { Obs::V(LAST.with(|l| l.get())) }
}
pub fn leak<U: Oct>(v: Vec<U>) -> &'static mut [U] { Box::leak(v.into_boxed_slice()) }
pub fn leakv<U: Oct>(v: Vec<U>) -> &'static mut Vec<U> { Box::leak(Box::new(v)) }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ()) }

// ---------------------------------------------------------------- values
pub trait Val: Sized { fn to(self) -> J; fn of(j: &J) -> Self; }
macro_rules! uxval { ($($t:ident : $p:ident),*) => { $(impl Val for midi2::ux::$t {
    fn to(self) -> J { J::I(<$p>::from(self) as i64) }
    fn of(j: &J) -> Self { midi2::ux::$t::new(j.int() as $p) } })* } }
uxval!(u3: u8, u4: u8, u7: u8, u14: u16, u20: u32, u28: u32);
impl Val for u8 { fn to(self) -> J { J::I(self as i64) } fn of(j: &J) -> Self { j.int() as u8 } }
impl Val for u16 { fn to(self) -> J { J::I(self as i64) } fn of(j: &J) -> Self { j.int() as u16 } }
impl Val for u32 { fn to(self) -> J { bytes(&self.to_be_bytes()) } fn of(j: &J) -> Self { let b = j.bytes(); u32::from_be_bytes([b[0], b[1], b[2], b[3]]) } }
impl Val for bool { fn to(self) -> J { J::I(self as i64) } fn of(j: &J) -> Self { j.int() != 0 } }
impl<const N: usize> Val for [midi2::ux::u7; N] {
    fn to(self) -> J { J::A(self.iter().map(|x| (*x).to()).collect()) }
    fn of(j: &J) -> Self { let a = j.arr(); core::array::from_fn(|i| midi2::ux::u7::of(&a[i])) }
}
impl Val for Option<midi2::ux::u4> {
    fn to(self) -> J { match self { None => J::I(-1), Some(x) => x.to() } }
    fn of(j: &J) -> Self { if j.int() < 0 { None } else { Some(Val::of(j)) } }
}
impl Val for Option<midi2::ux::u14> {
    fn to(self) -> J { match self { None => J::I(-1), Some(x) => x.to() } }
    fn of(j: &J) -> Self { if j.int() < 0 { None } else { Some(Val::of(j)) } }
}
use midi2::channel_voice2::{Controller, NoteAttribute};
impl Val for Option<NoteAttribute> {
    fn to(self) -> J {
        let (n, v) = match self {
            None => ("None", 0),
            Some(NoteAttribute::ManufacturerSpecific(x)) => ("ManufacturerSpecific", x),
            Some(NoteAttribute::ProfileSpecific(x)) => ("ProfileSpecific", x),
            Some(NoteAttribute::Pitch7_9(x)) => ("Pitch7_9", x.to_bits()),
            Some(_) => ("?", 0),
        };
        J::A(vec![s(n), J::I(v as i64)])
    }
    fn of(j: &J) -> Self {
        let a = j.arr();
        let v = a[1].int() as u16;
        match a[0].str() {
            "ManufacturerSpecific" => Some(NoteAttribute::ManufacturerSpecific(v)),
            "ProfileSpecific" => Some(NoteAttribute::ProfileSpecific(v)),
            "Pitch7_9" => Some(NoteAttribute::Pitch7_9(midi2::num::Fixed7_9::from_bits(v))),
            _ => None,
        }
    }
}
macro_rules! ctl {
    ($($n:ident),*) => { impl Val for Controller {
        fn to(self) -> J {
            let (n, i, d) = match self {
                $(Controller::$n(d) => (stringify!($n), 0, d),)*
                Controller::Pitch7_25(d) => ("Pitch7_25", 0, d.to_bits()),
                Controller::SoundController { index, data } => ("SoundController", index, data),
                Controller::EffectDepth { index, data } => ("EffectDepth", index, data),
                _ => ("?", 0, 0),
            };
            let mut v = vec![s(n), J::I(i as i64)];
            v.extend(d.to_be_bytes().iter().map(|b| J::I(*b as i64)));
            J::A(v)
        }
        fn of(j: &J) -> Self {
            let a = j.arr();
            let index = a[1].int() as u8;
            let data = u32::of(&J::A(a[2..6].to_vec()));
            match a[0].str() {
                $(stringify!($n) => Controller::$n(data),)*
                "Pitch7_25" => Controller::Pitch7_25(midi2::num::Fixed7_25::from_bits(data)),
                "SoundController" => Controller::SoundController { index, data },
                "EffectDepth" => Controller::EffectDepth { index, data },
                x => panic!("harness: controller {}", x),
            }
        } } }
}
ctl!(Modulation, Breath, Volume, Balance, Pan, Expression, SoundVariation, Timbre, ReleaseTime, AttackTime, Brightness, DecayTime,
     VebratoRate, VebratoDepth, VebratoDelay, Undefined, ReverbSendLevel, ChorusSendLevel);
macro_rules! en { ($t:path : $($n:ident),*) => { impl Val for $t {
    fn to(self) -> J { #[allow(unused_imports)] use $t::*; match self { $($n => s(stringify!($n))),* } }
    fn of(j: &J) -> Self { #[allow(unused_imports)] use $t::*; match j.str() { $(stringify!($n) => $n,)* x => panic!("harness: enum {}", x) } } } } }
use midi2::flex_data as fx;
en!(fx::Tonic: A, B, C, D, E, F, G, NonStandard);
en!(fx::SetChordNameSharpsFlats: DoubleSharp, Sharp, Natural, Flat, DoubleFlat);
en!(fx::ChordType: ClearChord, Major, Major6th, Major7th, Major9th, Major11th, Major13th, Minor, Minor6th, Minor7th, Minor9th,
    Minor11th, Minor13th, Dominant, Dominant9th, Dominant11th, Dominant13th, Augmented, Augmented7th, Diminished, Diminished7th,
    HalfDiminished, MajorMinor, Pedal, Power, Suspended2nd, Suspended4th);
en!(midi2::ump_stream::UiHint: Undeclared, Sender, Receiver, SenderReciever);
en!(midi2::ump_stream::Direction: Input, Output, Bidirectional);
impl Val for Option<midi2::ump_stream::Midi1Port> {
    fn to(self) -> J { use midi2::ump_stream::Midi1Port::*; s(match self { None => "None", Some(RestrictBandwidth) => "RestrictBandwidth", Some(DontRestrictBandwidth) => "DontRestrictBandwidth" }) }
    fn of(j: &J) -> Self { use midi2::ump_stream::Midi1Port::*; match j.str() { "RestrictBandwidth" => Some(RestrictBandwidth), "DontRestrictBandwidth" => Some(DontRestrictBandwidth), _ => None } }
}
impl Val for fx::SetKeySignatureSharpsFlats {
    fn to(self) -> J { use fx::SetKeySignatureSharpsFlats::*; let (n, v) = match self { Flats(x) => ("Flats", u8::from(x)), Sharps(x) => ("Sharps", u8::from(x)), NonStandard => ("NonStandard", 0) }; J::A(vec![s(n), J::I(v as i64)]) }
    fn of(j: &J) -> Self { use fx::SetKeySignatureSharpsFlats::*; let a = j.arr(); let v = midi2::ux::u3::new(a[1].int() as u8); match a[0].str() { "Flats" => Flats(v), "Sharps" => Sharps(v), _ => NonStandard } }
}
impl Val for Option<fx::Alteration> {
    fn to(self) -> J { use fx::Alteration::*; let (n, v) = match self { None => ("None", 0), Some(Add(x)) => ("Add", u8::from(x)), Some(Subtract(x)) => ("Subtract", u8::from(x)), Some(Raise(x)) => ("Raise", u8::from(x)), Some(Lower(x)) => ("Lower", u8::from(x)) }; J::A(vec![s(n), J::I(v as i64)]) }
    fn of(j: &J) -> Self { use fx::Alteration::*; let a = j.arr(); let v = midi2::ux::u4::new(a[1].int() as u8); match a[0].str() { "Add" => Some(Add(v)), "Subtract" => Some(Subtract(v)), "Raise" => Some(Raise(v)), "Lower" => Some(Lower(v)), _ => None } }
}
impl Val for midi2::ci::DeviceId {
    fn to(self) -> J { use midi2::ci::DeviceId::*; let (n, v) = match self { Channel(c) => ("Channel", u8::from(c)), Group => ("Group", 0), FunctionBlock => ("FunctionBlock", 0) }; J::A(vec![s(n), J::I(v as i64)]) }
    fn of(j: &J) -> Self { use midi2::ci::DeviceId::*; let a = j.arr(); match a[0].str() { "Channel" => Channel(Val::of(&a[1])), "Group" => Group, _ => FunctionBlock } }
}
impl Val for fx::Bank {
    fn to(self) -> J { J::I(match self { fx::Bank::SetupAndPerformance => 0, fx::Bank::MetadataText => 1, fx::Bank::PerformanceText => 2 }) }
    fn of(_: &J) -> Self { panic!("harness") }
}

// ---------------------------------------------------------------- iterators
static CAPIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(4096);
/// The most items taken from an iterator (a broken one may never end); grows with the scripts.
pub fn capit() -> usize { CAPIT.load(std::sync::atomic::Ordering::Relaxed) }
pub fn capit_at_least(n: usize) { CAPIT.fetch_max(4096 + 4 * n, std::sync::atomic::Ordering::Relaxed); }
/// Drives an iterator through a list of calls; every result is [status, value] with value a sequence.
pub fn drive<I: Iterator>(it: I, calls: &J, enc: impl Fn(I::Item) -> J, len: Option<fn(&I) -> usize>) -> J {
    let mut out = vec![];
    let mut it = Some(it);
    for c in calls.arr() {
        let a = c.arr();
        let name = a[0].str().to_string();
        let n = a[1].us();
        let r = guard(|| match name.as_str() {
            "next" => J::A(it.as_mut().unwrap().next().map(&enc).into_iter().collect()),
            "nth" => J::A(it.as_mut().unwrap().nth(n).map(&enc).into_iter().collect()),
            "nthmax" => J::A(it.as_mut().unwrap().nth(usize::MAX).map(&enc).into_iter().collect()),
            "hint" => { let (l, h) = it.as_ref().unwrap().size_hint(); J::A(vec![J::I(l.min(1 << 30) as i64), J::I(h.map(|x| x.min(1 << 30) as i64).unwrap_or(-1))]) }
            "len" => match len { Some(f) => J::A(vec![J::I(f(it.as_ref().unwrap()).min(1 << 30) as i64)]), None => J::A(vec![]) },
            "count" => J::A(vec![J::I(it.take().unwrap().count().min(1 << 30) as i64)]),
            "last" => J::A(it.take().unwrap().last().map(&enc).into_iter().collect()),
            "all" => J::A(it.take().unwrap().take(capit()).map(&enc).collect()),
            "skipall" => J::A(it.take().unwrap().skip(n).take(capit()).map(&enc).collect()),
            "stepall" => J::A(it.take().unwrap().step_by(n.max(1)).take(capit()).map(&enc).collect()),
            x => panic!("harness: iterator call {}", x),
        });
        let bad = r.is_err();
        out.push(J::A(match r { Ok(v) => vec![s("ok"), v], Err(()) => vec![s("panic"), J::A(vec![])] }));
        if bad || it.is_none() { break }
    }
    J::A(out)
}
pub fn b7(x: midi2::ux::u7) -> J { J::I(u8::from(x) as i64) }
pub fn b8(x: u8) -> J { J::I(x as i64) }

/// An input iterator with a chosen (always correct) size_hint.
pub struct HintIter<T> { pub v: std::vec::IntoIter<T>, pub kind: String }
impl<T: SxByte> Iterator for HintIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.v.next();
        if x.is_none() && self.kind.starts_with("endless") { Some(T::of8(9)) } else { x }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.kind.as_str() {
            "exact" => (n, Some(n)),
            "none" => (0, None),
            "lower" => (n, None),
            "half" => (n / 2, None),
            "halfup" => (n / 2, Some(n + 1 + n / 2)),
            "upper" => (0, Some(n)),
            "over" => (0, Some(2 * n + 9)),
            "huge" => (0, Some(usize::MAX)),
            "one" => (n.min(1), Some(n + 100)),
            "endless" => (usize::MAX, None),
            "endless-half" => (usize::MAX / 2 + n, None),
            "endless-none" => (n, None),
            x => panic!("harness: hint {}", x),
        }
    }
}
pub trait SxByte { fn of8(x: u8) -> Self; }
impl SxByte for u8 { fn of8(x: u8) -> u8 { x } }
impl SxByte for midi2::ux::u7 { fn of8(x: u8) -> Self { midi2::ux::u7::new(x & 0x7F) } }
pub fn items<T: SxByte>(op: &J) -> HintIter<T> {
    HintIter { v: op.at("items").bytes().into_iter().map(T::of8).collect::<Vec<T>>().into_iter(), kind: op.get("hint").map(|h| h.str().to_string()).unwrap_or("exact".into()) }
}
macro_rules! ranges {
    ($op:ident, $r:ident => $e:expr) => {{
        let a = $op.at("a").us();
        let b = $op.at("b").us();
        match $op.get("range").map(|x| x.str()).unwrap_or("..") {
            ".." => { let $r = a..b; $e }
            "..=" => { let $r = a..=(b - 1); $e }
            "a.." => { let $r = a..; $e }
            "..b" => { let $r = ..b; $e }
            "..=b" => { let $r = ..=(b - 1); $e }
            "full" => { let $r = ..; $e }
            "ex" => { let $r = (core::ops::Bound::Excluded(a - 1), core::ops::Bound::Excluded(b)); $e }
            x => panic!("harness: range {}", x),
        }
    }};
}
pub fn sx_grow<B: BufferMut + BufferResize, M: Sysex<B>>(m: &mut M, op: &J) -> Result<(), ()> where M::Byte: SxByte {
    match op.at("op").str() {
        "sx_set" => m.set_payload(items(op)),
        "sx_append" => m.append_payload(items(op)),
        "sx_append1" => m.append_byte(M::Byte::of8(op.at("items").bytes()[0])),
        "sx_insert" => m.insert_payload(items(op), op.at("a").us()),
        "sx_splice" => ranges!(op, r => m.splice_payload(items(op), r)),
        "sx_byte" => m.set_byte(M::Byte::of8(op.at("items").bytes()[0]), op.at("a").us()),
        x => panic!("harness: sysex op {}", x),
    }
    Ok(())
}
pub fn sx_fix<B: BufferMut + BufferTryResize, M: Sysex<B>>(m: &mut M, op: &J) -> Result<(), ()> where M::Byte: SxByte {
    match op.at("op").str() {
        "sx_set" => m.try_set_payload(items(op)),
        "sx_append" => m.try_append_payload(items(op)),
        "sx_append1" => m.try_append_byte(M::Byte::of8(op.at("items").bytes()[0])),
        "sx_insert" => m.try_insert_payload(items(op), op.at("a").us()),
        "sx_splice" => ranges!(op, r => m.try_splice_payload(items(op), r)),
        "sx_byte" => { m.set_byte(M::Byte::of8(op.at("items").bytes()[0]), op.at("a").us()); Ok(()) }
        x => panic!("harness: sysex op {}", x),
    }
    .map_err(|_| ())
}
#[macro_export]
macro_rules! local { () => {
    pub struct W<M> { pub m: M, pub obs: hc::Obs }
    pub fn w<M>(m: M, obs: hc::Obs) -> Box<W<M>> { Box::new(W { m, obs }) }
} }

// ---------------------------------------------------------------- packets
pub fn pk_variant(p: &Packet) -> &'static str {
    match p {
        Packet::ChannelVoice1(_) => "cv1", Packet::ChannelVoice2(_) => "cv2", Packet::FlexData(_) => "flex", Packet::Sysex7(_) => "sx7",
        Packet::Sysex8(_) => "sx8", Packet::SystemCommon(_) => "sys", Packet::UmpStream(_) => "stream", Packet::Utility(_) => "util",
    }
}
