//! Executes a script on a build of midi2 with a selection of its features (one binary per selection, without std unless selected).
#![allow(warnings, clippy::all)]
#[path = "../../harness/hc/src/json.rs"]
mod json;
use json::*;
use midi2::{prelude::*, UmpMessage};
#[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
use midi2::BytesMessage;
use std::io::{BufRead, Write};
type Packet = <midi2::PacketsIterator<'static> as Iterator>::Item;

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ()) }
fn oct32(x: &[u32]) -> Vec<u8> { x.iter().flat_map(|w| w.to_be_bytes()).collect() }
fn words(b: &[u8]) -> Vec<u32> { b.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect() }

fn fam_u<B: midi2::buffer::Ump>(m: &UmpMessage<B>) -> &'static str {
    match m {
        #[cfg(feature = "flex-data")] UmpMessage::FlexData(_) => "flex",
        #[cfg(feature = "channel-voice1")] UmpMessage::ChannelVoice1(_) => "cv1",
        #[cfg(feature = "channel-voice2")] UmpMessage::ChannelVoice2(_) => "cv2",
        #[cfg(feature = "sysex7")] UmpMessage::Sysex7(_) => "sx7",
        #[cfg(feature = "sysex8")] UmpMessage::Sysex8(_) => "sx8",
        #[cfg(feature = "system-common")] UmpMessage::SystemCommon(_) => "sys",
        #[cfg(feature = "ump-stream")] UmpMessage::UmpStream(_) => "stream",
        #[cfg(feature = "utility")] UmpMessage::Utility(_) => "util",
        _ => "?",
    }
}
#[cfg(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common"))]
fn parse_b(b: &[u8]) -> Option<Result<(String, Vec<u8>), ()>> {
    Some(BytesMessage::try_from(b).map(|m| (match &m {
        #[cfg(feature = "channel-voice1")] BytesMessage::ChannelVoice1(_) => "cv1",
        #[cfg(feature = "sysex7")] BytesMessage::Sysex7(_) => "sx7",
        #[cfg(feature = "system-common")] BytesMessage::SystemCommon(_) => "sys",
        _ => "?",
    }.to_string(), m.data().to_vec())).map_err(|_| ()))
}
#[cfg(not(any(feature = "channel-voice1", feature = "sysex7", feature = "system-common")))]
fn parse_b(_b: &[u8]) -> Option<Result<(String, Vec<u8>), ()>> { None }

fn fam_p(p: &Packet) -> &'static str {
    match p {
        #[cfg(feature = "flex-data")] Packet::FlexData(_) => "flex",
        #[cfg(feature = "channel-voice1")] Packet::ChannelVoice1(_) => "cv1",
        #[cfg(feature = "channel-voice2")] Packet::ChannelVoice2(_) => "cv2",
        #[cfg(feature = "sysex7")] Packet::Sysex7(_) => "sx7",
        #[cfg(feature = "sysex8")] Packet::Sysex8(_) => "sx8",
        #[cfg(feature = "system-common")] Packet::SystemCommon(_) => "sys",
        #[cfg(feature = "ump-stream")] Packet::UmpStream(_) => "stream",
        #[cfg(feature = "utility")] Packet::Utility(_) => "util",
        #[allow(unreachable_patterns)] _ => "?",
    }
}

type Items = Vec<J>;
fn put(v: &mut Items, ty: &str, form: &str, what: &str, f: impl FnOnce() -> Vec<u8>) {
    v.push(J::A(match guard(f) { Ok(d) => vec![s(ty), s(form), s(what), bytes(&d)], Err(()) => vec![s(ty), s(form), s("panic"), s(what)] }));
}
macro_rules! fixed { ($v:ident, $g:ident, $t:path, $ty:literal, $n:literal) => {
    put($v, $ty, "u", "new", || { let m = <$t>::new(); oct32(m.data()) });
    put($v, $ty, "u", "group", || { let mut m = <$t>::new(); m.set_group(u4::new($g)); oct32(m.data()) });
} }
macro_rules! bytes_form { ($v:ident, $g:ident, $t:ident, $ty:literal, $u:literal, $b:literal) => {
    put($v, $ty, "b", "new", || { let m = $t::<[u8; $b]>::new(); m.data().to_vec() });
    put($v, $ty, "u", "conv", || { let m = $t::<[u32; $u]>::new(); let x: $t<[u8; $b]> = m.try_into_bytes().unwrap(); x.data().to_vec() });
    put($v, $ty, "b", "conv", || { let m = $t::<[u8; $b]>::new(); let x: $t<[u32; $u]> = m.try_into_ump().unwrap(); oct32(x.data()) });
} }
macro_rules! text { ($v:ident, $op:ident, $t:path, $ty:literal, $set:ident, $it:ident, $get:ident) => {
    put($v, $ty, "u", "new", || { let m = <$t>::new(); oct32(m.data()) });
    put($v, $ty, "u", "text", || { let mut m = <$t>::new(); m.$set(&$op.0).unwrap(); oct32(m.data()) });
    #[cfg(feature = "std")] put($v, $ty, "u", "string", || { let mut m = <$t>::new(); m.$set(&$op.0).unwrap(); m.$get().into_bytes() });
    put($v, $ty, "u", "tx", || { let mut m = <$t>::new(); m.$set(&$op.0).unwrap(); m.$it().collect() });
} }

fn life(op: &J) -> Items {
    let (g, tx, pl) = (op.at("group").int() as u8, String::from_utf8(op.at("text").bytes()).unwrap(), op.at("payload").bytes());
    let mut v = vec![];
    let v = &mut v;
    let op = (tx, 0);
    #[cfg(feature = "channel-voice1")] {
        use midi2::channel_voice1::*;
        fixed!(v, g, NoteOn::<[u32; 1]>, "cv1::NoteOn", 1); bytes_form!(v, g, NoteOn, "cv1::NoteOn", 1, 3);
        fixed!(v, g, PitchBend::<[u32; 4]>, "cv1::PitchBend", 4); bytes_form!(v, g, ProgramChange, "cv1::ProgramChange", 1, 3);
    }
    #[cfg(feature = "system-common")] {
        use midi2::system_common::*;
        fixed!(v, g, SongPositionPointer::<[u32; 1]>, "sys::SongPositionPointer", 1); bytes_form!(v, g, SongPositionPointer, "sys::SongPositionPointer", 1, 3);
    }
    #[cfg(feature = "channel-voice2")] {
        use midi2::channel_voice2::*;
        fixed!(v, g, NoteOn::<[u32; 2]>, "cv2::NoteOn", 2);
        fixed!(v, g, RegisteredPerNoteController::<[u32; 4]>, "cv2::RegisteredPerNoteController", 4);
    }
    #[cfg(feature = "utility")] {
        use midi2::utility::*;
        put(v, "util::NoOp", "u", "new", || { let m = NoOp::<[u32; 1]>::new(); oct32(m.data()) });
    }
    #[cfg(feature = "flex-data")] {
        use midi2::flex_data::*;
        fixed!(v, g, SetTempo::<[u32; 4]>, "flex::SetTempo", 4);
        fixed!(v, g, ProjectName::<[u32; 4]>, "flex::ProjectName", 4);
        text!(v, op, Lyrics::<[u32; 16]>, "flex::Lyrics", try_set_text, text_bytes, text);
    }
    #[cfg(feature = "ump-stream")] {
        use midi2::ump_stream::*;
        put(v, "stream::EndpointInfo", "u", "new", || { let m = EndpointInfo::<[u32; 4]>::new(); oct32(m.data()) });
        text!(v, op, EndpointName::<[u32; 16]>, "stream::EndpointName", try_set_name, name_bytes, name);
        text!(v, op, FunctionBlockName::<[u32; 16]>, "stream::FunctionBlockName", try_set_name, name_bytes, name);
    }
    #[cfg(feature = "sysex7")] {
        use midi2::sysex7::*;
        fixed!(v, g, Sysex7::<[u32; 2]>, "sx7::Sysex7", 2);
        put(v, "sx7::Sysex7", "u", "sx", || { let mut m = Sysex7::<[u32; 16]>::new(); m.try_set_payload(pl.iter().map(|x| u7::new(*x))).unwrap(); oct32(m.data()) });
        #[cfg(feature = "std")] put(v, "sx7::Sysex7", "u", "vec", || { let mut m = Sysex7::<Vec<u32>>::new(); m.set_payload(pl.iter().map(|x| u7::new(*x))); oct32(m.data()) });
        #[cfg(feature = "std")] put(v, "sx7::Sysex7", "b", "vec", || { let mut m = Sysex7::<Vec<u8>>::new(); m.set_payload(pl.iter().map(|x| u7::new(*x))); m.data().to_vec() });
        put(v, "sx7::Sysex7", "u", "pl", || { let mut m = Sysex7::<[u32; 16]>::new(); m.try_set_payload(pl.iter().map(|x| u7::new(*x))).unwrap(); m.payload().map(u8::from).collect() });
        put(v, "sx7::Sysex7", "b", "sx", || { let mut m = Sysex7::<[u8; 48]>::new(); m.try_set_payload(pl.iter().map(|x| u7::new(*x))).unwrap(); m.data().to_vec() });
        put(v, "sx7::Sysex7", "u", "sxconv", || { let mut m = Sysex7::<[u32; 16]>::new(); m.try_set_payload(pl.iter().map(|x| u7::new(*x))).unwrap(); let x: Sysex7<[u8; 48]> = m.try_into_bytes().unwrap(); x.data().to_vec() });
        put(v, "sx7::Sysex7", "b", "sxconv", || { let mut m = Sysex7::<[u8; 48]>::new(); m.try_set_payload(pl.iter().map(|x| u7::new(*x))).unwrap(); let x: Sysex7<[u32; 16]> = m.try_into_ump().unwrap(); oct32(x.data()) });
    }
    #[cfg(feature = "sysex8")] {
        use midi2::sysex8::*;
        fixed!(v, g, Sysex8::<[u32; 4]>, "sx8::Sysex8", 4);
        put(v, "sx8::Sysex8", "u", "sx", || { let mut m = Sysex8::<[u32; 16]>::new(); m.try_set_payload(pl.iter().copied()).unwrap(); oct32(m.data()) });
        #[cfg(feature = "std")] put(v, "sx8::Sysex8", "u", "vec", || { let mut m = Sysex8::<Vec<u32>>::new(); m.set_payload(pl.iter().copied()); oct32(m.data()) });
        put(v, "sx8::Sysex8", "u", "pl", || { let mut m = Sysex8::<[u32; 16]>::new(); m.try_set_payload(pl.iter().copied()).unwrap(); m.payload().collect() });
    }
    #[cfg(feature = "ci")] {
        put(v, "ci::DiscoveryQuery2", "b", "new", || { let m = midi2::ci::DiscoveryQuery::<2, [u8; 40]>::try_new().unwrap(); m.data().to_vec() });
    }
    core::mem::take(v)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for (i, line) in inp.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue }
        let op = J::parse(&line);
        let mut ev = op.clone();
        ev.push("i", J::I(i as i64));
        match op.at("op").str() {
            "fparse" if op.at("form").str() == "u" => {
                let w = words(&op.at("buf").bytes());
                match guard(|| UmpMessage::try_from(&w[..]).map(|m| (fam_u(&m), oct32(m.data()), m.packets().take(64).map(|p| oct32(&p)).collect::<Vec<_>>())).map_err(|_| ())) {
                    Err(()) => ev.push("res", s("panic")),
                    Ok(Err(())) => ev.push("res", s("err")),
                    Ok(Ok((f, d, pk))) => { ev.push("res", s("ok")); ev.push("vf", s(f)); ev.push("data", bytes(&d)); ev.push("pk", J::A(pk.iter().map(|p| bytes(p)).collect())) }
                }
            }
            "fparse" => {
                let b = op.at("buf").bytes();
                match guard(|| parse_b(&b)) {
                    Err(()) => ev.push("res", s("panic")),
                    Ok(None) => ev.push("res", s("na")),
                    Ok(Some(Err(()))) => ev.push("res", s("err")),
                    Ok(Some(Ok((f, d)))) => { ev.push("res", s("ok")); ev.push("vf", J::S(f)); ev.push("data", bytes(&d)) }
                }
            }
            "fpkt" => {
                let w = words(&op.at("buf").bytes());
                match guard(|| Packet::try_from(&w[..]).map(|p| (fam_p(&p), oct32(&p))).map_err(|_| ())) {
                    Err(()) => ev.push("res", s("panic")),
                    Ok(Err(())) => ev.push("res", s("err")),
                    Ok(Ok((f, d))) => { ev.push("res", s("ok")); ev.push("vf", s(f)); ev.push("data", bytes(&d)) }
                }
            }
            "flife" => { let x = life(&op); ev.push("res", s("ok")); ev.push("out", J::A(x)) }
            x => { eprintln!("harness: unknown op {}", x); std::process::exit(4) }
        }
        let mut t = String::new();
        ev.write(&mut t);
        t.push('\n');
        out.write_all(t.as_bytes()).unwrap();
    }
    out.flush().unwrap();
}
