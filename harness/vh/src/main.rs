//! Executes a script of operations (one JSON object per line) on the real midi2 types and writes one event per operation.
use hc::*;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static TICK: AtomicU64 = AtomicU64::new(0);

fn parse(ty: &str, form: char, b: &[u8]) -> Option<Made> {
    if form == 'u' {
        let x: &'static [u32] = leak(words(b));
        gen_cv1::parse32(ty, x).or_else(|| gen_cv2::parse32(ty, x)).or_else(|| gen_sysutil::parse32(ty, x)).or_else(|| gen_flexf::parse32(ty, x))
            .or_else(|| gen_flext1::parse32(ty, x)).or_else(|| gen_flext2::parse32(ty, x)).or_else(|| gen_stream::parse32(ty, x)).or_else(|| gen_sx::parse32(ty, x))
    } else {
        let x: &'static [u8] = leak(b.to_vec());
        gen_cv1::parse8(ty, x).or_else(|| gen_sysutil::parse8(ty, x)).or_else(|| gen_sx::parse8(ty, x)).or_else(|| gen_ci::parse8(ty, x))
    }
}
fn make(ty: &str, form: char, k: &str, api: &str, init: &[u8]) -> Option<Made> {
    gen_cv1::make(ty, form, k, api, init).or_else(|| gen_cv2::make(ty, form, k, api, init)).or_else(|| gen_sysutil::make(ty, form, k, api, init))
        .or_else(|| gen_flexf::make(ty, form, k, api, init)).or_else(|| gen_flext1::make(ty, form, k, api, init)).or_else(|| gen_flext2::make(ty, form, k, api, init))
        .or_else(|| gen_stream::make(ty, form, k, api, init)).or_else(|| gen_sx::make(ty, form, k, api, init)).or_else(|| gen_ci::make(ty, form, k, api, init))
}

fn st<T>(r: Result<T, ()>, f: impl FnOnce(T) -> J, dflt: J) -> J {
    J::A(match r { Ok(v) => vec![s("ok"), f(v)], Err(()) => vec![s("panic"), dflt] })
}
fn empty() -> J { J::A(vec![]) }
fn dat(ev: &mut J, o: &dyn Obj) {
    ev.push("d", st(guard(|| o.data()), |d| bytes(&d), empty()));
    ev.push("bf", match o.buf() { Some(b) => J::A(vec![s("ok"), bytes(&b)]), None => J::A(vec![s("na"), empty()]) });
}
fn calls(x: &[(&str, i64)]) -> J { J::A(x.iter().map(|(n, k)| J::A(vec![s(n), J::I(*k)])).collect()) }
/// Reads everything there is to read.
fn read(o: &dyn Obj) -> J {
    let mut r = J::O(vec![]);
    r.push("ty", s(o.ty()));
    dat(&mut r, o);
    r.push("f", J::A(o.fields().iter().map(|f| match guard(|| o.get(f)) {
        Ok(v) => J::A(vec![s(f), s("ok"), v]), Err(()) => J::A(vec![s(f), s("panic"), J::I(0)]) }).collect()));
    r.push("var", J::S(guard(|| o.variant()).unwrap_or("panic".into())));
    let p = guard(|| o.packets());
    match p {
        Err(()) => { r.push("pk", J::A(vec![s("panic"), empty()])); r.push("pv", empty()) }
        Ok(None) => { r.push("pk", J::A(vec![s("na"), empty()])); r.push("pv", empty()) }
        Ok(Some(v)) => {
            r.push("pk", J::A(vec![s("ok"), J::A(v.iter().map(|p| bytes(&oct32(p))).collect())]));
            r.push("pv", J::A(v.iter().map(|p| {
                let w: Vec<u32> = p.to_vec();
                let again = guard(|| Packet::try_from(&w[..]).map(|q| q == *p).unwrap_or(false));
                J::A(vec![s(pk_variant(p)), J::B(again == Ok(true)), guard(|| pkt_group(p)).unwrap_or(J::I(-2)),
                    J::B(guard(|| pkt_info(p)).map(|i| !i.iter().any(|(_, x)| *x == s("panic"))).unwrap_or(false))])
            }).collect()));
        }
    }
    let all = calls(&[("all", 0)]);
    r.push("ps", match guard(|| o.payload_size()) { Ok(Some(n)) => J::A(vec![s("ok"), J::I(n.min(1 << 30) as i64)]), Ok(None) => J::A(vec![s("na"), J::I(0)]), Err(()) => J::A(vec![s("panic"), J::I(0)]) });
    for (k, v) in [("pl", guard(|| o.pl_iter(&all))), ("tb", guard(|| o.tx_iter(&all)))] {
        r.push(k, match v { Ok(Some(J::A(a))) => a[0].clone(), Ok(_) => J::A(vec![s("na"), empty()]), Err(()) => J::A(vec![s("panic"), empty()]) });
    }
    r.push("tx", match guard(|| o.text()) { Ok(Some(t)) => J::A(vec![s("ok"), bytes(t.as_bytes())]), Ok(None) => J::A(vec![s("na"), empty()]), Err(()) => J::A(vec![s("panic"), empty()]) });
    // the remaining accessors only have to return
    let more = guard(|| { o.pk_iter(&calls(&[("hint", 0), ("len", 0), ("next", 0), ("count", 0)])); })
        .and_then(|_| { let c = calls(&[("hint", 0), ("len", 0), ("next", 0), ("nth", 1), ("hint", 0), ("len", 0), ("count", 0)]);
            let bad = |x: Option<J>| x.map(|j| j.arr().iter().any(|e| e.arr()[0] == s("panic"))).unwrap_or(false);
            if guard(|| bad(o.pl_iter(&c)) || bad(o.tx_iter(&c)) || bad(o.pk_iter(&c)))? { Err(()) } else { Ok(()) } });
    r.push("more", s(if more.is_ok() { "ok" } else { "panic" }));
    r
}

fn pkt_group(p: &Packet) -> J {
    use midi2::Grouped;
    match p {
        Packet::ChannelVoice1(x) => x.group().to(), Packet::ChannelVoice2(x) => x.group().to(), Packet::FlexData(x) => x.group().to(),
        Packet::Sysex7(x) => x.group().to(), Packet::Sysex8(x) => x.group().to(), Packet::SystemCommon(x) => x.group().to(), _ => J::I(-1),
    }
}
type Info = Vec<(String, J)>;
fn pkt_info(p: &Packet) -> Info {
    match p {
        Packet::ChannelVoice1(x) => info_cv1(x), Packet::ChannelVoice2(x) => info_cv2(x), Packet::FlexData(x) => info_flex(x), Packet::Sysex7(x) => info_sx7(x),
        Packet::Sysex8(x) => info_sx8(x), Packet::SystemCommon(x) => info_sys(x), Packet::UmpStream(x) => info_stream(x), Packet::Utility(_) => vec![],
    }
}
fn put(v: &mut Info, k: &str, f: impl FnOnce() -> J) { v.push((k.into(), guard(f).unwrap_or(s("panic")))) }
macro_rules! info { ($n:ident, $m:ident, $p:ident, $v:ident => $($e:tt)*) => { #[allow(unused)] fn $n($p: &midi2::$m::Packet) -> Info { use midi2::{Grouped, Channeled}; let mut $v = vec![]; $($e)* $v } } }
info!(info_cv1, channel_voice1, p, v => put(&mut v, "group", || p.group().to()); put(&mut v, "channel", || p.channel().to()););
info!(info_cv2, channel_voice2, p, v => put(&mut v, "group", || p.group().to()); put(&mut v, "channel", || p.channel().to()););
info!(info_sys, system_common, p, v => put(&mut v, "group", || p.group().to()););
info!(info_flex, flex_data, p, v => put(&mut v, "group", || p.group().to()); put(&mut v, "format", || J::S(format!("{:?}", p.format()))););
info!(info_stream, ump_stream, p, v => put(&mut v, "format", || J::S(format!("{:?}", p.format()))););
info!(info_sx7, sysex7, p, v => put(&mut v, "group", || p.group().to()); put(&mut v, "status", || J::S(format!("{:?}", p.status())));
    put(&mut v, "payload", || J::A(p.payload().take(64).map(b7).collect())););
info!(info_sx8, sysex8, p, v => put(&mut v, "group", || p.group().to()); put(&mut v, "status", || J::S(format!("{:?}", p.status())));
    put(&mut v, "stream_id", || p.stream_id().to()); put(&mut v, "payload", || J::A(p.payload().take(64).map(b8).collect())););

fn info_j(i: Info) -> J { J::A(i.into_iter().map(|(k, v)| if v == s("panic") { J::A(vec![J::S(k), s("panic"), J::I(0)]) } else { J::A(vec![J::S(k), s("ok"), v]) }).collect()) }

/// Packet types: parse, read, optionally set group / channel.
fn packet(ev: &mut J, fam: &str, w: &[u32], op: &J) {
    use midi2::{Channeled, Grouped};
    macro_rules! go {
        ($m:ident, $info:expr, $set:expr) => {{
            let r = guard(|| midi2::$m::Packet::try_from(w));
            match r {
                Err(()) => ev.push("res", s("panic")),
                Ok(Err(_)) => ev.push("res", s("err")),
                Ok(Ok(mut p)) => {
                    ev.push("res", s("ok"));
                    ev.push("w", bytes(&oct32(&p)));
                    ev.push("f", info_j($info(&p)));
                    let sr = guard(|| { for x in op.at("set").arr() { let a = x.arr(); ($set)(&mut p, a[0].str(), a[1].int() as u8) } });
                    ev.push("sr", s(if sr.is_ok() { "ok" } else { "panic" }));
                    ev.push("w2", bytes(&oct32(&p)));
                    if let Some(c) = op.get("calls") { let _ = c; it(&p, c, ev); }
                }
            }
        }};
    }
    fn u4(x: u8) -> midi2::ux::u4 { midi2::ux::u4::new(x) }
    trait It { fn it(&self, _c: &J) -> Option<J> { None } }
    impl It for midi2::channel_voice1::Packet {}
    impl It for midi2::channel_voice2::Packet {}
    impl It for midi2::flex_data::Packet {}
    impl It for midi2::system_common::Packet {}
    impl It for midi2::ump_stream::Packet {}
    impl It for midi2::utility::Packet {}
    impl It for midi2::sysex7::Packet { fn it(&self, c: &J) -> Option<J> { Some(drive(self.payload(), c, b7, Some(|i| i.len()))) } }
    impl It for midi2::sysex8::Packet { fn it(&self, c: &J) -> Option<J> { Some(drive(self.payload(), c, b8, Some(|i| i.len()))) } }
    fn it<T: It>(p: &T, c: &J, ev: &mut J) { if let Some(j) = p.it(c) { ev.push("out", j) } }
    match fam {
        "cv1" => go!(channel_voice1, info_cv1, |p: &mut midi2::channel_voice1::Packet, f: &str, v| if f == "group" { p.set_group(u4(v)) } else { p.set_channel(u4(v)) }),
        "cv2" => go!(channel_voice2, info_cv2, |p: &mut midi2::channel_voice2::Packet, f: &str, v| if f == "group" { p.set_group(u4(v)) } else { p.set_channel(u4(v)) }),
        "flex" => go!(flex_data, info_flex, |p: &mut midi2::flex_data::Packet, _: &str, v| p.set_group(u4(v))),
        "sx7" => go!(sysex7, info_sx7, |p: &mut midi2::sysex7::Packet, _: &str, v| p.set_group(u4(v))),
        "sx8" => go!(sysex8, info_sx8, |p: &mut midi2::sysex8::Packet, _: &str, v| p.set_group(u4(v))),
        "sys" => go!(system_common, info_sys, |p: &mut midi2::system_common::Packet, _: &str, v| p.set_group(u4(v))),
        "stream" => go!(ump_stream, info_stream, |_: &mut midi2::ump_stream::Packet, _: &str, _| ()),
        "util" => go!(utility, |_: &midi2::utility::Packet| vec![], |_: &mut midi2::utility::Packet, _: &str, _| ()),
        "any" => match guard(|| Packet::try_from(w)) {
            Err(()) => ev.push("res", s("panic")),
            Ok(Err(_)) => ev.push("res", s("err")),
            Ok(Ok(p)) => {
                ev.push("res", s("ok"));
                ev.push("w", bytes(&oct32(&p)));
                ev.push("var", s(pk_variant(&p)));
                ev.push("f", guard(|| info_j(pkt_info(&p))).unwrap_or(empty()));
                ev.push("sr", s("ok"));
                ev.push("w2", bytes(&oct32(&p)));
            }
        },
        x => panic!("harness: packet family {}", x),
    }
}

/// Several senders, one packet stream, one receiver: everything the receiver knows comes from the accessors of the packets.
#[derive(PartialEq, Clone, Debug)]
enum Key { S7(J), S8(J, J), Flex(J, Vec<u8>), Stream(u32) }
fn link(ev: &mut J, op: &J) -> Result<(), ()> {
    use midi2::{flex_data, Grouped};
    fn pos(s: String) -> u8 { match s.as_str() { "Complete" => 0, "Start" => 1, "Continue" => 2, "End" | "UnexpectedEnd(Valid)" => 3, _ => 4 } }
    let mut streams: Vec<std::collections::VecDeque<Packet>> = vec![];
    for s in op.at("senders").arr() {
        let mut q = std::collections::VecDeque::new();
        for m in s.arr() { q.extend(parse("agg:Ump", 'u', &m.bytes()).expect("harness: aggregate").map_err(|_| ())?.packets().unwrap_or_default()) }
        streams.push(q);
    }
    let mut part: Vec<(Key, Vec<u32>, Vec<J>)> = vec![];
    let mut del = vec![];
    for o in op.at("order").arr() {
        let (k, lost) = (o.arr()[0].int() as usize - 1, o.arr()[1].int() == 1);
        let p = match streams[k].pop_front() { Some(p) => p, None => return Err(()) };
        if lost { continue }
        // 0 complete, 1 start, 2 continue, 3 end, 4 abandoned
        let flex = |p: &flex_data::Packet| (Key::Flex(p.group().to(), vec![(p[0] >> 16) as u8 & 0x3F, (p[0] >> 8) as u8, p[0] as u8]), pos(format!("{:?}", p.format())));
        let (key, pos, pay): (Option<Key>, u8, Vec<J>) = match &p {
            Packet::Sysex7(x) => (Some(Key::S7(x.group().to())), pos(format!("{:?}", x.status())), x.payload().map(b7).collect()),
            Packet::Sysex8(x) => (Some(Key::S8(x.group().to(), x.stream_id().to())), pos(format!("{:?}", x.status())), x.payload().map(b8).collect()),
            Packet::FlexData(x) => { let (k, s) = flex(x); (Some(k), s, vec![]) }
            Packet::UmpStream(x) => (Some(Key::Stream(x[0] >> 16 & 0x3FF)), pos(format!("{:?}", x.format())), vec![]),
            _ => (None, 0, vec![]),
        };
        let at = part.iter().position(|(k, _, _)| Some(k) == key.as_ref());
        let mut whole = None;
        // the end of a sysex8 message that its sender gave up
        let cut = matches!(&p, Packet::Sysex8(x) if format!("{:?}", x.status()).starts_with("UnexpectedEnd")) as i64;
        match pos {
            0 | 1 => {
                if let Some(i) = at { part.remove(i); }
                if pos == 0 { whole = Some((p.to_vec(), pay)) } else { part.push((key.unwrap(), p.to_vec(), pay)) }
            }
            2 | 3 => if let Some(i) = at {
                part[i].1.extend_from_slice(&p); part[i].2.extend(pay);
                if pos == 3 { let (_, w, y) = part.remove(i); whole = Some((w, y)) }
            },
            _ => if let Some(i) = at { part.remove(i); },
        }
        if let Some((w, pay)) = whole {
            let r = parse("agg:Ump", 'u', &oct32(&w)).expect("harness: aggregate");
            del.push(match r {
                Err(()) => J::A(vec![s("reject"), empty(), empty(), bytes(&oct32(&w)), J::I(cut)]),
                Ok(m) => J::A(vec![J::S(m.variant()), bytes(&m.data()), J::A(pay), bytes(&oct32(&w)), J::I(cut)]),
            });
        }
    }
    ev.push("del", J::A(del));
    ev.push("open", J::I(part.len() as i64));
    Ok(())
}

fn res(r: &Result<Option<Result<(), ()>>, ()>) -> J { s(match r { Err(()) => "panic", Ok(None) => "na", Ok(Some(Ok(()))) => "ok", Ok(Some(Err(()))) => "err" }) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let quiet = std::env::var("VH_LOUD").is_err();
    if quiet { std::panic::set_hook(Box::new(|i| { // harness bugs must not be mistaken for behaviour of the code
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        if m.starts_with("harness: ") && !m.starts_with("harness: fitted") { eprintln!("{}", m); std::process::exit(4) }
    })); }
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    // watchdog: an operation that does not return is reported by its line number
    let stop = args.get(3).cloned().unwrap_or("20".into()).parse::<u64>().unwrap();
    std::thread::spawn(move || { let mut last = 0; let mut n = 0; loop { std::thread::sleep(std::time::Duration::from_secs(1)); let t = TICK.load(Ordering::SeqCst); if t == last { n += 1 } else { n = 0; last = t }
        if n >= stop { eprintln!("HANG {}", t); std::process::exit(5) } } });
    let progress = std::env::var("VH_PROGRESS").ok();
    let mut cur: Option<Box<dyn Obj>> = None;
    for (i, line) in inp.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue }
        TICK.store(i as u64 + 1, Ordering::SeqCst);
        hc::capit_at_least(line.len());
        let op = J::parse(&line);
        let name = op.at("op").str().to_string();
        let mut ev = op.clone();
        ev.push("i", J::I(i as i64));
        if progress.is_some() { out.flush().unwrap(); std::fs::write(progress.as_ref().unwrap(), format!("{}", i)).unwrap(); }
        match name.as_str() {
            "parse" => {
                let form = op.at("form").str().chars().next().unwrap();
                let b = op.at("buf").bytes();
                match guard(|| parse(op.at("ty").str(), form, &b)) {
                    Err(()) => ev.push("res", s("panic")),
                    Ok(None) => ev.push("res", s("na")),
                    Ok(Some(Err(()))) => ev.push("res", s("err")),
                    Ok(Some(Ok(o))) => { ev.push("res", s("ok")); let r = read(&*o); ev.push("rd", r) }
                }
            }
            "load" | "new" => {
                let form = op.at("form").str().chars().next().unwrap();
                CAP.with(|c| c.set(op.get("cap").map(|x| x.us()).unwrap_or(0)));
                DIRT.with(|c| c.set(op.get("dirt").map(|x| x.int() as u32).unwrap_or(0)));
                let k = op.at("kind").str();
                let r = if name == "new" {
                    guard(|| make(op.at("ty").str(), form, k, op.at("api").str(), &op.at("init").bytes()))
                } else {
                    match guard(|| parse(op.at("ty").str(), form, &op.at("buf").bytes())) {
                        Err(()) => Err(()), Ok(None) => Ok(None), Ok(Some(Err(()))) => Ok(Some(Err(()))),
                        Ok(Some(Ok(o))) => if k == "S" { Ok(Some(Ok(o))) } else { guard(|| o.rebuf(if k.starts_with('A') { "try_from" } else { "from" }, k)) },
                    }
                };
                cur = None;
                match r {
                    Err(()) => ev.push("res", s("panic")),
                    Ok(None) => ev.push("res", s("na")),
                    Ok(Some(Err(()))) => ev.push("res", s("err")),
                    Ok(Some(Ok(o))) => { ev.push("res", s("ok")); dat(&mut ev, &*o); cur = Some(o) }
                }
            }
            "link" => { let r = guard(|| { let mut e = J::O(vec![]); link(&mut e, &op).map(|_| e) });
                match r { Err(()) => ev.push("res", s("panic")), Ok(Err(())) => ev.push("res", s("err")),
                    Ok(Ok(e)) => { ev.push("res", s("ok")); for k in ["del", "open"] { ev.push(k, e.at(k).clone()) } } } }
            "pkt" => packet(&mut ev, op.at("fam").str(), &words(&op.at("buf").bytes()), &op),
            _ => {
                if cur.is_none() { continue }
                let mut o = cur.take().unwrap();
                let mut keep = true;
                match name.as_str() {
                    "set" => {
                        let f = op.at("f").str();
                        let v = op.at("v");
                        match guard(|| o.set(f, v)) {
                            Err(()) => { ev.push("res", s("panic")); keep = false }
                            Ok(false) => ev.push("res", s("na")),
                            Ok(true) => { ev.push("res", s("ok")); dat(&mut ev, &*o);
                                ev.push("g", match guard(|| o.get(f)) { Ok(x) => J::A(vec![s("ok"), x]), Err(()) => J::A(vec![s("panic"), J::I(0)]) }); }
                        }
                    }
                    "text" => {
                        let v = op.at("v").bytes();
                        let t = String::from_utf8(v).expect("harness: script text must be utf8");
                        let r = guard(|| o.set_text(&t));
                        ev.push("res", res(&r));
                        if r.is_err() { keep = false } else { dat(&mut ev, &*o) }
                    }
                    n if n.starts_with("sx_") => {
                        let r = guard(|| o.sx(&op));
                        ev.push("res", res(&r));
                        if r.is_err() { keep = false } else { dat(&mut ev, &*o) }
                    }
                    "read" => { let r = read(&*o); ev.push("rd", r) }
                    "iter" => {
                        let c = op.at("calls");
                        let r = guard(|| match op.at("what").str() { "pl" => o.pl_iter(c), "pk" => o.pk_iter(c), _ => o.tx_iter(c) });
                        ev.push("res", s(match &r { Err(()) => "panic", Ok(None) => "na", _ => "ok" }));
                        ev.push("out", match r { Ok(Some(j)) => j, _ => empty() });
                    }
                    "reparse" => {
                        ev.push("eq", match guard(|| o.reparse_eq()) { Ok(Some(true)) => s("yes"), Ok(Some(false)) => s("no"), Ok(None) => s("na"), Err(()) => s("panic") });
                        let ty = o.ty(); let form = o.form();
                        match guard(|| parse(ty, form, &o.data())) {
                            Err(()) => ev.push("res", s("panic")), Ok(None) => ev.push("res", s("na")), Ok(Some(Err(()))) => ev.push("res", s("err")),
                            Ok(Some(Ok(p))) => { ev.push("res", s("ok")); let r = read(&*p); ev.push("rd", r) }
                        }
                    }
                    "conv" | "rebuf" | "wrap" => {
                        CAP.with(|c| c.set(op.get("cap").map(|x| x.us()).unwrap_or(0)));
                        let r = guard(|| match name.as_str() {
                            "conv" => o.conv(op.at("api").str(), op.at("to").str()),
                            "rebuf" => o.rebuf(op.at("api").str(), op.at("to").str()),
                            _ => o.wrap(op.at("lvl").str()).map(Ok),
                        });
                        match r {
                            Err(()) => ev.push("res", s("panic")),
                            Ok(None) => ev.push("res", s("na")),
                            Ok(Some(Err(()))) => ev.push("res", s("err")),
                            Ok(Some(Ok(p))) => { ev.push("res", s("ok")); dat(&mut ev, &*p); ev.push("ty2", s(p.ty())); ev.push("form2", J::S(p.form().to_string())); ev.push("var", J::S(guard(|| p.variant()).unwrap_or("panic".into()))); cur = Some(p) }
                        }
                        let mut t = String::new(); ev.write(&mut t); t.push('\n'); out.write_all(t.as_bytes()).unwrap();
                        continue;
                    }
                    x => panic!("harness: unknown op {}", x),
                }
                if keep { cur = Some(o) }
            }
        }
        let mut t = String::new();
        ev.write(&mut t);
        t.push('\n');
        out.write_all(t.as_bytes()).unwrap();
    }
    out.flush().unwrap();
}
