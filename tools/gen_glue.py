#!/usr/bin/env python3
"""Generates the harness glue crates (harness/gen_*) from table.py: one impl of hc::Obj per message type and buffer kind.
The output is not committed; bin/check.py regenerates it before building."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import T, TEXTFN
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
FAMENUM = {"cv1": ("channel_voice1", "ChannelVoice1", "ub"), "cv2": ("channel_voice2", "ChannelVoice2", "u"),
           "sys": ("system_common", "SystemCommon", "ub"), "util": ("utility", "Utility", "u"), "flex": ("flex_data", "FlexData", "u"),
           "stream": ("ump_stream", "UmpStream", "u")}
VARS = {}
for m in T: VARS.setdefault(m["fam"], []).append(m["name"])
HEAD = """#![allow(unused, clippy::all)]
use hc::*; use hc::Packet; use midi2::buffer::*; use midi2::{*, BytesMessage, UmpMessage}; use midi2::flex_data::FlexDataMessage;
hc::local!();
type R0 = Option<Made>;
"""
UN = {"u": "u32", "b": "u8"}

def sizes(m, f):
    if f == "u":
        mn = m["minu"]
        return {"fixed": [mn - 1, mn + 3], "text": [3, 5, 8, 12, 20], "sysex": [1, 3, 4, 8, 16, 68] if mn == 2 else [3, 5, 8, 12, 20, 68]}[m["kind"]]
    mn = m["minb"]
    return {"fixed": [mn - 1, 6], "sysex": [1, 4, 8, 16, 32, 210], "ci": [mn - 1, mn + 4]}[m["kind"]]

def path(m):
    if m["kind"] == "ci": return "midi2::ci::DiscoveryQuery"
    return "midi2::%s::%s" % (m["mod"], m["name"])
def mt(m, b):
    if m["kind"] == "ci": return "midi2::ci::DiscoveryQuery<%s, %s>" % (m["name"][-1], b)
    return path(m) + "<%s>" % b
def mte(m, b):
    if m["kind"] == "ci": return "midi2::ci::DiscoveryQuery::<%s, %s>" % (m["name"][-1], b)
    return path(m) + "::<%s>" % b

KIND = {"S": ("&'static [%s]", "ro"), "V": ("Vec<%s>", "grow"), "MV": ("&'static mut Vec<%s>", "grow"), "MS": ("&'static mut [%s]", "fix"),
        "SV": ("SpyV<%s>", "grow"), "SF": ("SpyF<%s>", "fix"), "ST": ("SpyT<%s>", "fix")}
def kinds(m, f):
    u = UN[f]
    r = [(k, v[0] % u, v[1]) for k, v in KIND.items()]
    mn = m["minu"] if f == "u" else m["minb"]
    r += [("A%d" % n, "[%s; %d]" % (u, n), "fix") for n in sizes(m, f) if n >= mn]
    return r
OBS = {"S": "Obs::No", "V": "Obs::No", "SV": "Obs::last()", "SF": "Obs::last()", "ST": "Obs::last()"}

def idf(m, f): return (m["name"] + "_" + f).lower()

def emit_msg(m, f):
    o = []
    u, i = UN[f], idf(m, f)
    kd = m["kind"]
    tr = "Ump" if f == "u" else "Bytes"
    P = path(m)
    flds = [x for x in m["fields"] if not (f == "b" and x == "group")]
    ro = ["flex_bank", "flex_status"] if m["fam"] == "flex" and m["name"] != "UnknownMetadataText" else []
    ro += ["destination"] if kd == "ci" else []
    allf = [x for x in flds if x != "destination"] + ro
    G = "midi2::ci::DiscoveryQuery<%s, B>" % m["name"][-1] if kd == "ci" else P + "<B>"
    o.append("const F_%s: &[&str] = &[%s];" % (i.upper(), ", ".join('"%s"' % x for x in allf)))
    def getter(x):
        if x == "flex_bank": return '"flex_bank" => FlexDataMessage::bank(m).to(),'
        if x == "flex_status": return '"flex_status" => J::I(FlexDataMessage::status(m) as i64),'
        if kd == "ci" and x in ("device_id", "source", "destination"): return '"%s" => midi2::ci::Ci::%s(m).to(),' % (x, x)
        return '"%s" => m.%s().to(),' % (x, x)
    o.append("pub fn get_%s<B: %s>(m: &%s, f: &str) -> J { match f { %s _ => panic!(\"harness: field\") } }" % (i, tr, G, " ".join(getter(x) for x in allf)))
    ws = [x for x in flds if x not in ("destination",) + (("device_id",) if kd == "ci" else ())]
    if kd == "ci": G2 = "m.set_%s(Val::of(v));"
    o.append("pub fn set_%s<B: %s + BufferMut>(m: &mut %s, f: &str, v: &J) -> bool { match f { %s _ => return false } }" % (
        i, tr, G, " ".join('"%s" => { m.set_%s(Val::of(v)); true }' % (x, x) for x in ws)))
    ks = kinds(m, f)
    fam, lvl2 = m["fam"], "UmpMessage" if f == "u" else "BytesMessage"
    # conversions
    if len(m["forms"]) == 2:
        d, tf, tu = ("from_ump", "b", "u8") if f == "u" else ("from_bytes", "u", "u32")
        into = "into_bytes" if f == "u" else "into_ump"
        bound = "Ump" if f == "u" else "Bytes"
        arms = []
        for k in ("V", "SV"):
            t = P + "<%s>" % (KIND[k][0] % tu)
            arms.append('("from", "%s") => Some(Ok({ let x = <%s as %s<_>>::%s(m); let b = %s; w(x, b) })),' % (k, t, "FromUmp" if f == "u" else "FromBytes", d, OBS[k]))
            arms.append('("into", "%s") => Some(Ok({ let x: %s = m.%s(); let b = %s; w(x, b) })),' % (k, t, into, OBS[k]))
        mn2 = m["minb"] if f == "u" else m["minu"]
        for n in sizes(m, tf):
            t = P + "<[%s; %d]>" % (tu, n)
            if kd == "fixed" and n >= mn2:
                arms.append('("from", "A%d") => Some(Ok(w(<%s as %s<_>>::%s(m), Obs::No))),' % (n, t, "FromUmp" if f == "u" else "FromBytes", d))
            if n >= mn2:
                arms.append('("try_from", "A%d") => Some(<%s as Try%s<_>>::try_%s(m).map(|x| w(x, Obs::No) as Box<dyn Obj>).map_err(|_| ())),' % (n, t, "FromUmp" if f == "u" else "FromBytes", d))
                arms.append('("try_into", "A%d") => Some({ let r: Result<%s, _> = m.try_%s(); r.map(|x| w(x, Obs::No) as Box<dyn Obj>).map_err(|_| ()) }),' % (n, t, into))
            else:
                arms.append('("try_from", "A%d") => Some(match <%s as Try%s<_>>::try_%s(m) { Ok(x) => panic!("harness: fitted {:?}", x.data()), Err(_) => Err(()) }),' % (n, t, "FromUmp" if f == "u" else "FromBytes", d))
        for k in ("SF", "ST"):
            t = P + "<%s>" % (KIND[k][0] % tu)
            arms.append('("try_from", "%s") => Some(<%s as Try%s<_>>::try_%s(m).map(|x| { let b = Obs::last(); w(x, b) as Box<dyn Obj> }).map_err(|_| ())),' % (k, t, "FromUmp" if f == "u" else "FromBytes", d))
        o.append("pub fn conv_%s<B: %s + 'static>(m: %s, api: &str, to: &str) -> R0 { match (api, to) { %s _ => None } }" % (i, bound, G, "\n".join(arms)))
    # aggregates
    for (k, bt, cls) in ks:
        body = ["fn ty(&self) -> &'static str { \"%s\" } fn form(&self) -> char { '%s' }" % (m["ty"], f),
                "fn data(&self) -> Vec<u8> { Oct::oct(self.m.data()) } fn buf(&self) -> Option<Vec<u8>> { self.obs.read::<%s>() }" % u,
                "fn fields(&self) -> &'static [&'static str] { F_%s } fn get(&self, f: &str) -> J { get_%s(&self.m, f) }" % (i.upper(), i)]
        if f == "u":
            body.append("fn packets(&self) -> Option<Vec<Packet>> { Some(self.m.packets().take(capit()).collect()) }")
            body.append("fn pk_iter(&self, c: &J) -> Option<J> { Some(drive(self.m.packets(), c, |p| bytes(&oct32(&p)), Some(|i| i.len()))) }")
        if kd == "sysex" or kd == "ci":
            sx7 = m["fam"] != "sx8"
            lenf = "Some(|i| i.len())"
            body.append("fn payload_size(&self) -> Option<usize> { Some(self.m.payload_size()) }")
            body.append("fn pl_iter(&self, c: &J) -> Option<J> { Some(drive(self.m.payload(), c, %s, %s)) }" % ("b7" if sx7 else "b8", lenf))
        if kd == "text":
            fn = TEXTFN.get(m["name"], "text")
            body.append("fn text(&self) -> Option<String> { Some(self.m.%s()) }" % fn)
            body.append("fn tx_iter(&self, c: &J) -> Option<J> { Some(drive(self.m.%s_bytes(), c, b8, None)) }" % fn)
            if cls == "grow": body.append("fn set_text(&mut self, v: &str) -> Option<Result<(), ()>> { self.m.set_%s(v); Some(Ok(())) }" % fn)
            if cls == "fix": body.append("fn set_text(&mut self, v: &str) -> Option<Result<(), ()>> { Some(self.m.try_set_%s(v).map_err(|_| ())) }" % fn)
        if cls != "ro":
            body.append("fn set(&mut self, f: &str, v: &J) -> bool { set_%s(&mut self.m, f, v) }" % i)
            if kd == "sysex": body.append("fn sx(&mut self, op: &J) -> Option<Result<(), ()>> { Some(sx_%s(&mut self.m, op)) }" % cls)
        if len(m["forms"]) == 2 and (k in ("S", "V", "SV") or k[0] == "A"):
            body.append("fn conv(self: Box<Self>, api: &str, to: &str) -> R0 { conv_%s(self.m, api, to) }" % i)
        # rebuffers
        arms = []
        ok = {"S": ["V", "SV", "SF", "ST"], "MS": ["V", "S"]}.get(k, ["V"] if k[0] == "A" else [])
        for t in ok:
            if kd == "ci" and t == "ST": continue
            tt = mt(m, KIND[t][0] % u)
            arms.append('("from", "%s") => Some(Ok({ let x = <%s as RebufferFrom<_>>::rebuffer_from(self.m); let b = %s; w(x, b) })),' % (t, tt, OBS[t]))
            arms.append('("into", "%s") => Some(Ok({ let x: %s = self.m.rebuffer_into(); let b = %s; w(x, b) })),' % (t, tt, OBS[t]))
        mn = m["minu"] if f == "u" else m["minb"]
        if k in ("S", "MS", "V"):
            for n in sizes(m, f):
                tt = mt(m, "[%s; %d]" % (u, n))
                if n >= mn:
                    arms.append('("try_from", "A%d") => Some(<%s as TryRebufferFrom<_>>::try_rebuffer_from(self.m).map(|x| w(x, Obs::No) as Box<dyn Obj>).map_err(|_| ())),' % (n, tt))
                    if kd != "ci": arms.append('("try_into", "A%d") => Some({ let r: Result<%s, _> = self.m.try_rebuffer_into(); r.map(|x| w(x, Obs::No) as Box<dyn Obj>).map_err(|_| ()) }),' % (n, tt))
                else:
                    arms.append('("try_from", "A%d") => Some(match <%s as TryRebufferFrom<_>>::try_rebuffer_from(self.m) { Ok(x) => panic!("harness: fitted {:?}", x.data()), Err(_) => Err(()) }),' % (n, tt))
        if k[0] == "A" and kd != "ci":
            for n in sizes(m, f):
                if n >= mn and (kd == "fixed" or n >= 0):
                    tt = mt(m, "[%s; %d]" % (u, n))
                    arms.append('("array", "A%d") => Some(Ok(w(<%s as ArrayRebufferFrom<_>>::array_rebuffer_from(self.m), Obs::No))),' % (n, tt))
        if arms: body.append("fn rebuf(self: Box<Self>, api: &str, to: &str) -> R0 { match (api, to) { %s _ => None } }" % "\n".join(arms))
        if kd != "ci" and (k in ("S", "V", "SV", "SF") ):
            arms = []
            if fam in FAMENUM:
                e = "midi2::%s::%s" % FAMENUM[fam][:2]
                arms.append('"fam" => { let o = self.obs; Some(w(%s::from(self.m), o)) }' % e)
                arms.append('"fam2" => { let o = self.obs; Some(w(%s::from(%s::from(self.m)), o)) }' % (lvl2, e))
            arms.append('"top" => { let o = self.obs; Some(w(%s::from(self.m), o)) }' % lvl2)
            body.append("fn wrap(self: Box<Self>, l: &str) -> Option<Box<dyn Obj>> { match l { %s, _ => None } }" % ", ".join(arms))
        o.append("impl Obj for W<%s> { %s }" % (mt(m, bt), "\n    ".join(body)))
    # constructors
    arms = []
    for (k, bt, cls) in ks:
        e = mte(m, bt)
        if k == "V": arms += ['("V", "new") => ok(w(%s::new(), Obs::No)),' % e, '("V", "with") => ok(w(%s::new_with_buffer(un::<%s>(init)), Obs::No)),' % (e, u)]
        if k == "SV": arms += ['("SV", "new") => { let x = %s::new(); ok(w(x, Obs::last())) }' % e,
                               '("SV", "with") => { let x = %s::new_with_buffer(SpyV::over(un::<%s>(init), 0)); ok(w(x, Obs::last())) }' % (e, u)]
        if k == "MV": arms.append('("MV", "with") => { let p = leakv(un::<%s>(init)); let q = p as *mut Vec<%s> as usize; ok(w(%s::new_with_buffer(p), Obs::V(q))) }' % (u, u, e))
        if k == "MS": arms.append('("MS", "with") => { let p = leak(un::<%s>(init)); let (q, n) = (p.as_ptr() as usize, p.len()); tr(%s::try_new_with_buffer(p), Obs::S(q, n)) }' % (u, e))
        if k in ("SF", "ST"):
            arms.append('("%s", "new") => { let x = %s::try_new(); tr(x, Obs::last()) }' % (k, e))
            arms.append('("%s", "with") => { let x = %s::try_new_with_buffer(%s::over(un::<%s>(init), CAP.with(|c| c.get()))); tr(x, Obs::last()) }' % (k, e, KIND[k][0].split("<")[0], u))
    mn = m["minu"] if f == "u" else m["minb"]
    for n in sizes(m, f):
        e = mte(m, "[%s; %d]" % (u, n))
        if n >= mn:
            if kd != "ci": arms.append('("A%d", "new") => ok(w(%s::new(), Obs::No)),' % (n, e))
            arms.append('("A%d", "try_new") => tr(%s::try_new(), Obs::No),' % (n, e))
            arms.append('("A%d", "with") => tr(%s::try_new_with_buffer(arr::<%s, %d>(init)), Obs::No),' % (n, e, u, n))
        else:
            arms.append('("A%d", "try_new") => { assert!(%s::try_new().is_err(), "harness: fitted"); Some(Err(())) }' % (n, e))
            arms.append('("A%d", "with") => { assert!(%s::try_new_with_buffer(arr::<%s, %d>(init)).is_err(), "harness: fitted"); Some(Err(())) }' % (n, e, u, n))
    o.append("fn make_%s(k: &str, api: &str, init: &[u8]) -> R0 { match (k, api) { %s _ => None } }" % (i, "\n".join(arms)))
    if kd == "ci": o.append("fn parse_%s(b: &'static [%s]) -> Made { %s::try_from(b).map(|m| w(m, Obs::No) as Box<dyn Obj>).map_err(|_| ()) }" % (i, u, mte(m, "&'static [u8]")))
    else: o.append("fn parse_%s(b: &'static [%s]) -> Made { %s::try_from(b).map(|m| w(m, Obs::No) as Box<dyn Obj>).map_err(|_| ()) }" % (i, u, P))
    return "\n".join(o)

def emit_agg(e, fam, f, members, alltop):
    """Obj impls of an aggregate enum e (type path) for a few buffer kinds."""
    o = []
    u = UN[f]
    ty = "agg:" + fam
    for k in ("S", "V", "SV", "SF"):
        bt, cls = KIND[k][0] % u, KIND[k][1]
        grouped = f == "u" and fam not in ("util", "stream", "Ump")
        chan = fam in ("cv1", "cv2")
        fl = (["group"] if grouped else []) + (["channel"] if chan else []) + (["flex_bank", "flex_status"] if fam == "flex" else [])
        gets = {"group": "self.m.group().to()", "channel": "self.m.channel().to()", "flex_bank": "FlexDataMessage::bank(&self.m).to()", "flex_status": "J::I(FlexDataMessage::status(&self.m) as i64)"}
        body = ["fn ty(&self) -> &'static str { \"%s\" } fn form(&self) -> char { '%s' }" % (ty, f),
                "fn data(&self) -> Vec<u8> { Oct::oct(self.m.data()) } fn buf(&self) -> Option<Vec<u8>> { self.obs.read::<%s>() }" % u,
                "fn fields(&self) -> &'static [&'static str] { &[%s] } fn get(&self, f: &str) -> J { match f { %s _ => panic!() } }" % (
                    ", ".join('"%s"' % x for x in fl), " ".join('"%s" => %s,' % (x, gets[x]) for x in fl)),
                "fn variant(&self) -> String { var_%s_%s(&self.m) }" % (fam.lower(), f)]
        if f == "u":
            body.append("fn packets(&self) -> Option<Vec<Packet>> { Some(self.m.packets().take(capit()).collect()) }")
            body.append("fn pk_iter(&self, c: &J) -> Option<J> { Some(drive(self.m.packets(), c, |p| bytes(&oct32(&p)), Some(|i| i.len()))) }")
        if cls != "ro" and (grouped or chan):
            body.append("fn set(&mut self, f: &str, v: &J) -> bool { match f { %s _ => return false } true }" % " ".join(
                '"%s" => self.m.set_%s(Val::of(v)),' % (x, x) for x in fl if x in ("group", "channel")))
        if k == "S": body.append("fn reparse_eq(&self) -> Option<bool> { let d: &'static [%s] = leak(self.m.data().to_vec()); let b = leak(self.m.data().to_vec()); let x = %s::try_from(d); let y = %s::try_from(&*b); Some(matches!((&x, &y), (Ok(p), Ok(q)) if p == q && (*p != self.m) == (self.obs_len() != d.len()))) }" % (u, e, e) if False else
            "fn reparse_eq(&self) -> Option<bool> { Some(matches!(%s::try_from(self.m.data()), Ok(p) if p == self.m)) }" % e)
        arms = []
        if fam in ("cv1", "sys", "Bytes", "Ump") and k in ("S", "V"):
            pass
        if alltop is not None and k in ("S", "V") and fam in ("cv1", "sys"):
            d, tu = ("from_ump", "u8") if f == "u" else ("from_bytes", "u32")
            te = {"Bytes": "UmpMessage", "Ump": "BytesMessage"}.get(fam, e)
            Tn = "FromUmp" if f == "u" else "FromBytes"
            for t in ("V", "SV"):
                arms.append('("from", "%s") => Some(Ok({ let x = <%s<%s> as %s<_>>::%s(self.m); let b = %s; w(x, b) })),' % (t, te, KIND[t][0] % tu, Tn, d, OBS[t]))
            for t in ("SF",):
                arms.append('("try_from", "%s") => Some(<%s<%s> as Try%s<_>>::try_%s(self.m).map(|x| { let b = Obs::last(); w(x, b) as Box<dyn Obj> }).map_err(|_| ())),' % (t, te, KIND[t][0] % tu, Tn, d))
            if arms: body.append("fn conv(self: Box<Self>, api: &str, to: &str) -> R0 { match (api, to) { %s _ => None } }" % "\n".join(arms))
        arms = []
        if k == "S":
            for t in ("V", "SV", "SF"):
                arms.append('("from", "%s") => Some(Ok({ let x = <%s<%s> as RebufferFrom<_>>::rebuffer_from(self.m); let b = %s; w(x, b) })),' % (t, e, KIND[t][0] % u, OBS[t]))
        if k in ("S", "V"):
            for n in (1, 2, 3, 4, 5, 8, 12, 20) if f == "u" else (1, 2, 3, 8, 16, 32):
                arms.append('("try_from", "A%d") => Some(<%s<[%s; %d]> as TryRebufferFrom<_>>::try_rebuffer_from(self.m).map(|x| w(Snap { ty: "%s", form: \'%s\', var: var_%s_%s(&x), data: Oct::oct(x.data()) }, Obs::No) as Box<dyn Obj>).map_err(|_| ())),' % (n, e, u, n, ty, f, fam.lower(), f))
        if arms: body.append("fn rebuf(self: Box<Self>, api: &str, to: &str) -> R0 { match (api, to) { %s _ => None } }" % "\n".join(arms))
        if k in ("S", "V", "SV", "SF") and fam not in ("Ump", "Bytes"):
            body.append('fn wrap(self: Box<Self>, l: &str) -> Option<Box<dyn Obj>> { match l { "top" => { let o = self.obs; Some(w(%s::from(self.m), o)) } _ => None } }' % ("UmpMessage" if f == "u" else "BytesMessage"))
        o.append("impl Obj for W<%s<%s>> { %s }" % (e, bt, "\n    ".join(body)))
    return "\n".join(o)

SNAP = """
pub struct Snap { ty: &'static str, form: char, var: String, data: Vec<u8> }
impl Obj for W<Snap> { fn ty(&self) -> &'static str { self.m.ty } fn form(&self) -> char { self.m.form } fn data(&self) -> Vec<u8> { self.m.data.clone() } fn variant(&self) -> String { self.m.var.clone() } }
"""
UTIL = """
fn ok<T: Obj + 'static>(b: Box<T>) -> R0 { Some(Ok(b)) }
fn tr<M, E>(r: Result<M, E>, o: Obs) -> R0 where W<M>: Obj, M: 'static { Some(r.map(|x| w(x, o) as Box<dyn Obj>).map_err(|_| ())) }
fn un<U: Oct>(b: &[u8]) -> Vec<U> { U::un(b) }
fn arr<U: Oct, const N: usize>(b: &[u8]) -> [U; N] { let v = U::un(b); core::array::from_fn(|i| v.get(i).copied().unwrap_or(U::zero())) }
"""

def varfns():
    o = []
    for fam, (mod, en, forms) in FAMENUM.items():
        for f in forms:
            b = "Ump" if f == "u" else "Bytes"
            arms = " ".join("midi2::%s::%s::%s(_) => \"%s::%s\"," % (mod, en, n, fam, n) for n in VARS[fam])
            o.append("pub fn var_%s_%s<B: %s>(m: &midi2::%s::%s<B>) -> String { #[allow(unreachable_patterns)] match m { %s _ => \"?\" }.to_string() }" % (fam, f, b, mod, en, arms))
    o.append("""pub fn var_ump_u<B: Ump>(m: &UmpMessage<B>) -> String { match m {
        UmpMessage::FlexData(x) => var_flex_u(x), UmpMessage::ChannelVoice1(x) => var_cv1_u(x), UmpMessage::ChannelVoice2(x) => var_cv2_u(x),
        UmpMessage::Sysex7(_) => "sx7::Sysex7".into(), UmpMessage::Sysex8(_) => "sx8::Sysex8".into(), UmpMessage::SystemCommon(x) => var_sys_u(x),
        UmpMessage::UmpStream(x) => var_stream_u(x), UmpMessage::Utility(x) => var_util_u(x), _ => "?".into() } }
    pub fn var_bytes_b<B: Bytes>(m: &BytesMessage<B>) -> String { match m {
        BytesMessage::ChannelVoice1(x) => var_cv1_b(x), BytesMessage::Sysex7(_) => "sx7::Sysex7".into(), BytesMessage::SystemCommon(x) => var_sys_b(x), _ => "?".into() } }""")
    return "\n".join(o)

GROUPS = {"cv1": ["cv1"], "cv2": ["cv2"], "sysutil": ["sys", "util"], "flexf": ["flex"], "flext1": ["flex"], "flext2": ["flex"], "stream": ["stream"], "sx": ["sx7", "sx8"], "ci": ["ci"]}
def main():
    members = ["hc"]
    calls = {"make": [], "parse": []}
    for g, fams in GROUPS.items():
        ms = [m for m in T if m["fam"] in fams]
        if g == "flexf": ms = [m for m in ms if m["kind"] == "fixed"]
        if g.startswith("flext"):
            ms = [m for m in ms if m["kind"] == "text"]; h = len(ms) // 2
            ms = ms[:h] if g == "flext1" else ms[h:]
        src = [HEAD, UTIL, SNAP, varfns()]
        mk, pa = [], {"u": [], "b": []}
        for m in ms:
            for f in m["forms"]:
                src.append(emit_msg(m, f))
                mk.append('("%s", \'%s\') => make_%s(k, api, init),' % (m["ty"], f, idf(m, f) if len(fams) == 1 or True else ""))
                pa[f].append('"%s" => Some(parse_%s(b)),' % (m["ty"], idf(m, f)))
        if g != "ci":
            for fam in fams:
                if fam in FAMENUM:
                    mod, en, forms = FAMENUM[fam]
                    for f in forms:
                        src.append(emit_agg("midi2::%s::%s" % (mod, en), fam, f, VARS[fam], True))
                        if g not in ("flext1", "flext2"): pa[f].append('"agg:%s" => Some(midi2::%s::%s::try_from(b).map(|m| w(m, Obs::No) as Box<dyn Obj>).map_err(|_| ())),' % (fam, mod, en))
            src.append(emit_agg("UmpMessage", "Ump", "u", [], True))
            src.append(emit_agg("BytesMessage", "Bytes", "b", [], True))
            if g == "cv1":
                pa["u"].append('"agg:Ump" => Some(UmpMessage::try_from(b).map(|m| w(m, Obs::No) as Box<dyn Obj>).map_err(|_| ())),')
                pa["b"].append('"agg:Bytes" => Some(BytesMessage::try_from(b).map(|m| w(m, Obs::No) as Box<dyn Obj>).map_err(|_| ())),')
        src.append("pub fn make(ty: &str, form: char, k: &str, api: &str, init: &[u8]) -> R0 { match (ty, form) { %s _ => None } }" % "\n".join(mk))
        src.append("pub fn parse32(ty: &str, b: &'static [u32]) -> R0 { match ty { %s _ => None } }" % "\n".join(pa["u"]))
        src.append("pub fn parse8(ty: &str, b: &'static [u8]) -> R0 { match ty { %s _ => None } }" % "\n".join(pa["b"]))
        d = os.path.join(ROOT, "gen_" + g)
        os.makedirs(d + "/src", exist_ok=True)
        def wr(p, s):
            if not (os.path.exists(p) and open(p).read() == s): open(p, "w").write(s)
        wr(d + "/Cargo.toml", '[package]\nname = "gen_%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nhc = { path = "../hc" }\nmidi2 = { path = "/repo/midi2", default-features = false, features = ["std", "channel-voice1", "channel-voice2", "ci", "flex-data", "sysex7", "sysex8", "system-common", "ump-stream", "utility"] }\n' % g)
        wr(d + "/src/lib.rs", "\n".join(src) + "\n")
if __name__ == "__main__": main()
