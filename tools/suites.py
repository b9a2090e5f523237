"""One script generator per property.  A suite is a list of groups; a group is a list of operations that belong together."""
from gen import *

HINTS = ["exact", "none", "lower", "half", "halfup", "upper", "over", "huge", "one"]
RANGES = ["..", "..=", "a..", "..b", "..=b", "full", "ex"]
def sub(x, k, r):
    x = list(x)
    return x if len(x) <= k else r.sample(x, k)
def multi(m): return m["kind"] in ("text", "sysex")

def octet_sweep(g, m, f):
    """a legal message with one octet replaced: every illegal code of the coded fields, extreme values of every octet"""
    r = g.r
    b = g.msg(m, f, 2)
    if multi(m): b = b[:32]
    ck = {"att": 8, "ctl": 8, "ton": 4, "csf": 4, "cty": 8, "alt": 8, "port": 2, "dir": 2, "ksf": 4}
    for fd in m["fields"]:
        w = ck.get(fd["k"])
        if not w or fd["o"] < g.sh(m, f): continue
        vs = range(1 << w) if w < 8 else [3, 4, 26, 27, 28, 63, 64, 68, 79, 80, 81, 90, 95, 96, 128, 254, 255] + [r.randrange(256) for _ in range(4)]
        for v in vs:
            x = list(b); putb(x, fd["o"] - g.sh(m, f), w, v); yield b, x
    for i in range(len(b)):
        for v in {0, 1, 0x7F, 0x80, 0xFF, 0xF7, b[i] ^ 0x10, b[i] ^ 0x40, r.randrange(256), r.randrange(256)}:
            if r.random() < .5 * g.scale: x = list(b); x[i] = v; yield b, x
def big_types(g): return g.tf(multi)
def big_msg(g, m, f, n):
    """a legal message of n payload octets (or text bytes)"""
    if m["kind"] == "text": return g.text_msg(m, g.text(n))
    if f == "b" or g.r.random() < .6: return g.sx(m, f, n)
    c, sizes = g.cap(m), []
    while n > 0: k = min(n, g.r.choice([c, c, c, c - 1, 0, g.r.randrange(c + 1)])); sizes.append(k); n -= k
    return g.sx_ump(m, sizes)
def enc_units(g, m, f, n):
    """units of the encoding of n payload octets / text bytes"""
    if m["kind"] == "text": return 4 * max(1, -(-n // g.tcap(m)))
    return n + 2 if f == "b" else m["size"] // 4 * max(1, -(-n // g.cap(m)))
def big_session(g, m, f, kinds, tail, k=3, ns=None):
    """a history of one message of many packets"""
    r = g.r
    ns = ns or g.big_lens(m, k)
    kd = r.choice(kinds)
    u = 4 if f == "u" else 1
    top = max(enc_units(g, m, f, n) for n in ns)
    if kd == "AB":
        cap = g.big_array(m, f)
        fit = (cap - 2) if f == "b" else cap * 4 // m["size"] * g.cap(m)
        ns = [n if n <= fit and r.random() < .6 else r.choice([fit, fit, fit + 1, fit - 1]) for n in ns]
        kd = "A%d" % cap
    else: cap = top + r.choice([0, 0, -1, 1, 5]) if kd in ("SF", "ST", "MS") else r.choice([0, 2, 9])
    e = g.new(m, f, kd, "with", [r.randrange(1, 256) for _ in range(u * cap)] if kd != "ST" or r.random() < .5 else [], cap, dirt=r.choice([255, 0x5A]))
    if kd in ("SV", "SF", "ST") and r.random() < .3:
        b = big_msg(g, m, f, r.choice([0, 1, ns[0]]))
        e = g.load(m, f, kd, b, max(cap, len(b) // u), dirt=255)
    s = [e]
    fs = g.fields(m, f)
    for x in fs: s.append(g.setv(x))
    for n in ns:
        if m["kind"] == "text": s.append(dict(op="text", v=g.text(n)))
        else:
            s.append(dict(op="sx_set", items=g.pl(m, n), hint=r.choice(HINTS)))
            s += [dict(t) for t in tail]
            fit = kd[0] != "A" and kd not in ("SF", "ST", "MS")
            if fit or r.random() < .5: # ends of the payload are only known when nothing failed
                if fit:
                    a = r.choice([0, min(1, n), n // 2, max(0, n - 1), n]); b = r.choice([a, min(n, a + 1), min(n, a + 14), n])
                    s.append(dict(op="sx_splice", items=g.pl(m, r.choice([0, 1, b - a, 14, 40])), hint=r.choice(HINTS), a=a, b=b, range=".."))
                    n2 = n - (b - a) + len(s[-1]["items"])
                    if n2: s.append(dict(op="sx_byte", items=g.pl(m, 1), hint="exact", a=r.choice([0, n2 - 1, n2 // 2])))
                else: s.append(dict(op="sx_append", items=g.pl(m, r.choice([1, 7, 14, 40])), hint=r.choice(HINTS)))
        s += [dict(t) for t in tail]
        for x in sub(fs, 2, r):
            if r.random() < .6: s.append(g.setv(x)); s += [dict(t) for t in tail]
    return s
def big_kinds(g, m, f, grow=True, fix=True):
    k = (["V", "SV", "SV", "MV"] if grow else []) + (["SF", "ST", "MS"] if fix else [])
    return k + (["AB"] if fix and m["kind"] == "sysex" else [])
def bigs(g, out, pred, per, tail, grow=True, fix=True, k=3):
    for m, f in big_types(g):
        if pred(m, f):
            for i in range(g.n(per(m) if callable(per) else per)): out.append(big_session(g, m, f, big_kinds(g, m, f, grow, fix), tail, k))

def huges(g, out, pred, tail, sx=3, grow=True, fix=True):
    """histories of messages of hundreds or thousands of packets"""
    for m, f in big_types(g):
        if not pred(m, f): continue
        for i in range(g.n(1 if m["kind"] == "text" else sx)):
            n = g.r.choice(g.huge_lens(m, m["kind"] == "sysex" and i % 3 == 0)[-10 if i % 3 == 0 and m["kind"] == "sysex" else 0:])
            kd = [k for k in big_kinds(g, m, f, grow, fix) if k != "AB"]
            out.append(big_session(g, m, f, kd, tail, ns=[n] + ([g.r.choice([0, 1, n + 1, n - 1, 300])] if n < 5000 else [])))
def huge_msgs(g, pred, sx=4):
    """(type, form, octets) of legal messages of hundreds or thousands of packets"""
    for m, f in big_types(g):
        if pred(m, f):
            for i in range(g.n(1 if m["kind"] == "text" else sx)):
                far = m["kind"] == "sysex" and i % 3 == 0
                yield m, f, big_msg(g, m, f, g.r.choice(g.huge_lens(m, far)[-10 if far else 0:]))

# ------------------------------------------------------------------ C01
def C01(g):
    out = []
    for m, f in g.tf():
        for i in range(g.n(60 if multi(m) or m["kind"] == "ci" else 10)):
            b = g.wild(m, f)
            out.append([g.parse(m, f, b)])
            if i % 2 == 0:
                for a in g.aggs(m, f): out.append([g.parse(a, f, b)])
        for i in range(g.n(14 if multi(m) else 2)):
            b = g.corrupt(m, f, g.msg(m, f))
            out.append([g.parse(m, f, b)])
    for m, f in g.tf(): # octet sweeps of a legal message
        for b, x in octet_sweep(g, m, f):
            out.append([g.parse(m, f, x)])
            if g.r.random() < .15: out.append([g.parse(g.r.choice(g.aggs(m, f) or [m["ty"]]), f, x)])
    for m, f in big_types(g):
        for n in g.big_lens(m, g.n(4)): out.append([g.parse(t, f, big_msg(g, m, f, n)) for t in [m["ty"]] + g.aggs(m, f)])
    for m, f, b in huge_msgs(g, lambda m, f: True, 2): out.append([g.parse(m, f, b)])
    for m, f in g.tf(lambda m: not multi(m)):
        for b in g.sweep(m, f):
            if g.r.random() < .3: out.append([g.parse(g.r.choice([m["ty"]] + g.aggs(m, f)), f, b)])
    layout_reads(g, out)
    for a, f in [("agg:Ump", "u"), ("agg:Bytes", "b"), ("agg:cv1", "b"), ("agg:sys", "b"), ("agg:flex", "u"), ("agg:stream", "u")]:
        for i in range(g.n(80)):
            out.append([g.parse(a, f, g.octs(g.r.randrange(0, 9) * (4 if f == "u" else 1)))])
        out.append([g.parse(a, f, [])])
    for fam in FAMS + ["any"]:
        for i in range(g.n(60)): out.append([wild_pkt(g, fam)])
    return out
FAMS = ["cv1", "cv2", "sys", "util", "flex", "stream", "sx7", "sx8"]
NIB = dict(util=0, sys=1, cv1=2, sx7=3, cv2=4, sx8=5, flex=13, stream=15)
WORDS = dict(util=1, sys=1, cv1=1, sx7=2, cv2=2, sx8=4, flex=4, stream=4)
def calls(g, n, k=8, names=("next", "nth", "len", "hint", "nth", "next")):
    r = g.r
    c = []
    for _ in range(r.randrange(1, k)):
        x = r.choice(names)
        c.append([x, r.choice([0, 0, 1, 1, 2, 3, r.randrange(n + 2), n, n + 1, 5, 6, 7, 12, 13, 14]) if x == "nth" else 0])
    if r.random() < .1: c.append(["nthmax", 0]); c.append(["next", 0]); c.append(["len", 0])
    if r.random() < .5: c.append(r.choice([["count", 0], ["all", 0], ["last", 0], ["skipall", r.randrange(n + 3)], ["stepall", r.randrange(1, 5)]]))
    else: c += [["len", 0], ["hint", 0], ["next", 0], ["len", 0]]
    return c
def wild_pkt(g, fam, legal=None):
    r = g.r
    f = r.choice(FAMS) if fam == "any" else fam
    k = r.random()
    n = WORDS[f] if k < .7 else r.randrange(0, 6)
    b = g.octs(4 * n)
    if b and r.random() < .93: b[0] = NIB[f] * 16 + r.randrange(16)
    if n and f in ("sx7", "sx8"):
        b[1] = r.choice([0, 16, 32, 48, 48, 48, 64, r.randrange(256)]) & 0xF0 | r.choice([0, 1, 2, 5, 6, 7, 13, 14, 15, r.randrange(16)])
        if f == "sx8" and r.random() < .3 and n > 3: b[2] = r.choice([0, 1, 255]); b[3:] = [0] * len(b[3:])
        if f == "sx8" and r.random() < .1 and n > 3: b[3:] = [0] * (len(b) - 4) + [r.choice([0, 1])]
    st = []
    for _ in range(r.randrange(3)):
        x = r.choice(["group", "channel"])
        if fam in ("any", "util", "stream") or (x == "channel" and fam not in ("cv1", "cv2")): continue
        st.append([x, r.randrange(16)])
    return dict(op="pkt", fam=fam, buf=b, set=st, calls=calls(g, 13) if fam in ("sx7", "sx8") else [])

# ------------------------------------------------------------------ C02
def mutants(g, m, f, b):
    """systematic header mutants of the legal message b"""
    for i in range(min(32, 8 * len(b))):
        x = list(b); x[i // 8] ^= 1 << (7 - i % 8); yield x
    u = 4 if f == "u" else 1
    for n in range(0, len(b) // u): yield b[:n * u]
    if len(b) > 16 and f == "u":
        for j in range(m["size"] if m["kind"] == "sysex" else 16, len(b), m["size"] if m["kind"] == "sysex" else 16):
            for i in range(32):
                if g.r.random() < .35: x = list(b); x[j + i // 8] ^= 1 << (7 - i % 8); yield x
def C02(g):
    r = g.r
    out = []
    def put(m, f, b, agg=None):
        out.append([g.parse(m, f, b)])
        for a in g.aggs(m, f):
            if agg or r.random() < .35: out.append([g.parse(a, f, b)])
    for m, f in g.tf():
        for i in range(g.n(3)): put(m, f, g.msg(m, f), True)
        if multi(m):
            for i in range(g.n(10 if m["kind"] == "text" else 40)): put(m, f, g.msg(m, f))
        for i in range(g.n(1 if m["kind"] != "sysex" else 6)):
            b = g.msg(m, f)
            ms = list(mutants(g, m, f, b))
            for x in (ms if not multi(m) else sub(ms, g.n(36), r)): put(m, f, x)
        # every code of coded fields
        for fd in m["fields"]:
            if fd["k"] in ("att", "ctl", "ton", "csf", "cty", "alt", "port", "dir"):
                o, w = fd["o"] - g.sh(m, f), {"ton": 4, "csf": 4, "port": 2, "dir": 2}.get(fd["k"], 8)
                codes = range(1 << w)
                for c in codes:
                    b = g.msg(m, f); putb(b, o, w, c); put(m, f, b)
        if m["kind"] == "text":
            for i in range(g.n(12)): # statuses, broken UTF-8
                k = r.randrange(1, 5)
                b = g.text_msg(m, g.text(r.randrange(1, k * g.tcap(m) + 1)), k)
                for j in range(k):
                    if r.random() < .5: putb(b, 128 * j + (8 if m["fam"] == "flex" else 4), 2, r.randrange(4))
                put(m, f, b)
            for i in range(g.n(10)):
                k = r.randrange(1, 3)
                b = g.text_msg(m, g.text(r.randrange(1, k * g.tcap(m) + 1)), k)
                bad = r.choice([[0x80], [0xC3], [0xC0, 0x80], [0xE0, 0x80, 0x80], [0xED, 0xA0, 0x80], [0xF4, 0x90, 0x80, 0x80], [0xFF], [0xE2, 0x82], [0xF0, 0x9F, 0x98, 0x80]])
                at = r.choice([g.toff(m), len(b) - len(bad), len(b) - 16 + g.toff(m)])
                b[at:at + len(bad)] = bad
                put(m, f, b[:len(b) // 16 * 16])
        if m["kind"] == "sysex" and f == "u":
            for i in range(g.n(60)):
                k = r.randrange(1, 5)
                b = g.sx_ump(m, [r.randrange(g.cap(m) + 1) for _ in range(k)])
                ps = m["size"]
                for j in range(k):
                    if r.random() < .3: b[ps * j + 1] = b[ps * j + 1] & 0x0F | r.choice([0, 16, 32, 48, 64, 128])
                    if r.random() < .08: b[ps * j + 1] = b[ps * j + 1] & 0xF0 | r.choice([0, 7, 15, 14, 6])
                    if r.random() < .05: b[ps * j] ^= r.choice([1, 2, 4, 8, 16])
                    if r.random() < .05: b[ps * j + 2] ^= r.choice([1, 128])
                put(m, f, b)
                if r.random() < .3: put(m, f, b[:-4])
    for m, f in big_types(g): # many packets, one of them wrong
        if f != "u": continue
        ps = m["size"] if m["kind"] == "sysex" else 16
        for i in range(g.n(3 if m["kind"] == "text" else 30)):
            b = big_msg(g, m, f, r.choice(g.big_lens(m, 1)))
            put(m, f, b)
            for q in range(3):
                x = list(b); j = r.choice([0, r.randrange(len(b) // ps), len(b) // ps - 1]); bit = r.randrange(32)
                x[j * ps + bit // 8] ^= 1 << (7 - bit % 8)
                put(m, f, x)
    for m, f, b in huge_msgs(g, lambda m, f: True):
        ps = (m["size"] if m["kind"] == "sysex" else 16) if f == "u" else 1
        out.append([g.parse(m, f, b)])
        x = list(b); j = r.choice([r.randrange(len(b) // ps), len(b) // ps - 1, len(b) // ps - 2, min(len(b) // ps - 1, 256)]); bit = r.randrange(24 if f == "u" else 8)
        x[j * ps + bit // 8] ^= 1 << (7 - bit % 8)
        out.append([g.parse(r.choice([m["ty"]] + g.aggs(m, f)), f, x)])
    layout_reads(g, out)
    # every (type, status) header and every flex / stream designation through the aggregates
    for t in range(16):
        for s in range(256 if g.scale >= 2 else 16):
            st = s if g.scale >= 2 else s * 16 + r.randrange(16)
            b = [t * 16 + r.randrange(16), st] + [r.randrange(128) for _ in range(14)]
            out.append([g.parse("agg:Ump", "u", b)])
            for fam in FAMS[:6]:
                if r.random() < .25 or NIB[fam] == t: out.append([g.parse("agg:" + fam, "u", b)])
    for st in range(256):
        b = [st, r.randrange(128), r.randrange(128)]
        for a in ("agg:Bytes", "agg:cv1", "agg:sys"): out.append([g.parse(a, "b", b)])
        b = [0x10 + r.randrange(16), st, r.randrange(128), r.randrange(128)]
        for a in ("agg:Ump", "agg:sys"): out.append([g.parse(a, "u", b)])
    z = [0] * 12
    for bank in [0, 1, 2, 3, 255]:
        for st in list(range(20)) + [255]:
            for h in (0x10, 0x50, 0x90, 0xD0, 0, 0x05):
                b = [0xD0 + r.randrange(16), h, bank, st] + z
                if (h >> 4) != 5 and h >> 6: b = b if r.random() < .5 else b[:12] + b[12:] # lone start / continue / end packets
                out.append([g.parse(r.choice(["agg:Ump", "agg:flex"]), "u", b)])
    for st in list(range(40)) + [255, 256, 257, 1023, 272, 512, 768]:
        for fmt in (0, 1, 3):
            b = [0xF0 + fmt * 4 + (st >> 8), st & 255] + [0, 0] + [1] * 12
            out.append([g.parse(r.choice(["agg:Ump", "agg:stream"]), "u", b)])
    return out

# ------------------------------------------------------------------ C03
def C03(g):
    out = []
    for m, f in g.tf():
        ln = g.minlen(m, f)
        if multi(m):
            for i in range(g.n(8)): out.append([g.parse(m, f, g.msg(m, f, noise=True))])
            continue
        for x in [[0] * ln, [255] * ln, [0x55] * ln, [0xAA] * ln] + [g.octs(ln) for _ in range(g.n(4))]:
            b = g.fixed(m, f, x)
            out.append([g.parse(m, f, b)])
            for a in g.aggs(m, f):
                if g.r.random() < .5: out.append([g.parse(a, f, b)])
        for fd in m["fields"]: # one field all ones / all zeros against the opposite background, and one-hot bits
            if fd["o"] < g.sh(m, f): continue
            w = {"q": 32, "l14": 16, "l28": 32, "att": 40, "ctl": 40, "bank": 16, "och": 6, "ton": 4, "csf": 4, "cty": 8, "alt": 8, "ksf": 4, "hint": 2, "port": 2, "dir": 2, "dev": 8, "s7": 8 * fd["w"]}.get(fd["k"], fd["w"])
            o = fd["o"] - g.sh(m, f)
            for bg in (0, 255):
                pats = [(1 << w) - 1, 0] + [1 << i for i in sub(range(w), g.n(4), g.r)]
                for p in pats:
                    x = [bg] * ln
                    putb(x, o, w, p if bg == 0 else ((1 << w) - 1) ^ p)
                    keep = list(x)
                    b = g.hdr(m, f, x)
                    if m["kind"] == "ci":
                        b = [v & 0x7F for v in b]; g.hdr(m, f, b); b[-1] = 0xF7
                    if m["kind"] == "fixnc" and getb(b, 10, 2) == 0: putb(b, 10, 2, 1)
                    for f2 in m["fields"]:
                        o2 = f2["o"] - g.sh(m, f)
                        if o2 >= 0 and f2["n"] != fd["n"]: g.code(f2, b, o2)
                    if fd["k"] in ("att", "ctl"): g.code(fd, b, o)
                    out.append([g.parse(m, f, b)])
        for b in g.sweep(m, f): out.append([g.parse(g.r.choice([m["ty"], m["ty"]] + g.aggs(m, f)), f, b)])
    layout_reads(g, out)
    return out

def layout_reads(g, out, agg=.2):
    for m, f in g.tf(lambda m: m["kind"] == "sysex"):
        if f == "u":
            for lay in sx_layouts(g, m):
                b = g.sx_ump(m, lay, noise=g.r.random() < .5)
                out.append([g.parse(t, f, b) for t in [m["ty"]] + [a for a in g.aggs(m, f) if g.r.random() < agg]])
# ------------------------------------------------------------------ C04
def editable(g, m, f, trail=True):
    """a load of a legal noisy message into an observable mutable buffer"""
    b = g.msg(m, f)
    if trail and not multi(m) and m["kind"] != "ci" and m["fam"] not in ("flex", "stream") and g.r.random() < .6:
        b = b + g.octs(g.r.randrange(1, 4) * (4 if f == "u" else 1))
    return g.load(m, f, g.r.choice(["SV", "SV", "SF", "ST"]) if m["kind"] != "ci" else "SV", b)
def C04(g):
    out = []
    for m, f in g.tf():
        fs = g.fields(m, f)
        if not fs: continue
        for fd in fs:
            for v in g.values(fd, g.n(6)):
                s = [editable(g, m, f)] + [g.setv(fd, v)]
                if g.r.random() < .4: s.append(g.setv(fd, v))
                if g.r.random() < .6:
                    f2 = g.r.choice(fs); s.append(g.setv(f2))
                    s.append(g.setv(fd, v))
                for v2 in sub(g.related(fd, v), 3, g.r): s.append(g.setv(fd, v2))
                out.append(s)
            vs = g.allvalues(fd); g.r.shuffle(vs)
            if multi(m): vs = vs[:20] if m["kind"] == "text" else vs
            out.append([editable(g, m, f)] + [g.setv(fd, v) for v in vs])
            s = [editable(g, m, f)] # walks through related values of one field
            v = g.value(fd)
            for _ in range(g.n(6)): s.append(g.setv(fd, v)); v = g.r.choice(g.related(fd, v))
            out.append(s)
        for i in range(g.n(3)): # order independence and long runs on any kind
            k = g.r.choice(["V", "MV", "MS", "SF", "A"] if m["kind"] != "ci" else ["V", "MV", "MS"])
            if k == "A": k = "A%d" % g.r.choice(g.arrays(m, f))
            api = "with"
            init = g.octs(g.minlen(m, f) + 4 * g.r.randrange(3)) if k != "V" else []
            out.append([g.new(m, f, k, api, init)] + [g.setv(g.r.choice(fs)) for _ in range(12)])
    return out

# ------------------------------------------------------------------ C05
def C05(g):
    r = g.r
    out = []
    for m, f in g.tf():
        mn, u = g.minunits(m, f), 4 if f == "u" else 1
        ci = m["kind"] == "ci"
        def fin(): return [dict(op="read"), dict(op="reparse")]
        out.append([g.new(m, f, "V", "new")] + fin())
        for rep in range(g.n(2)):
            for k in ("V", "SV", "MV"):
                n = r.choice([0, 1, mn - 1, mn, mn + 1, mn + 7, 3 * mn + 2])
                out.append([g.new(m, f, k, "with", g.octs(max(0, n) * u))] + fin())
            for k in ("MS", "SF", "ST"):
                for n in {max(0, mn - 1), mn, r.choice([0, mn + 1, mn + 8, 3 * mn])}:
                    x = g.new(m, f, k, "with", [255] * (n * u) if rep == 0 else g.octs(n * u))
                    if k == "ST":
                        x["dirt"] = 255; x["cap"] = max(n, r.choice([n, mn, mn + 4]))
                    out.append([x] + fin())
        for cap in {0, mn - 1, mn, mn + 3} if not ci else []:
            if cap < 0: continue
            for k in ("SF", "ST"): out.append([g.new(m, f, k, "new", [], cap)] + fin())
        for n in g.arrays(m, f):
            k = "A%d" % n
            out.append([g.new(m, f, k, "with", g.octs(n * u))] + fin())
            out.append([g.new(m, f, k, "with", [255] * (n * u))] + fin())
            out.append([g.new(m, f, k, "try_new")] + fin())
            if not ci: out.append([g.new(m, f, k, "new")] + fin())
        for n in g.small_arrays(m, f):
            out.append([g.new(m, f, "A%d" % n, "with", [255] * (n * u))])
            out.append([g.new(m, f, "A%d" % n, "try_new")])
    return out

# ------------------------------------------------------------------ C06
def trailing(g, m, f):
    r = g.r
    k = r.random()
    if f == "b": return r.choice([[0], [0xF7], [0x40, 0xF7], g.octs(r.randrange(1, 9)), [0xF0, 1, 0xF7]])
    if k < .2: return [0] * 4 * r.randrange(1, 6)
    if k < .45: return g.octs(4 * r.randrange(1, 9))
    if k < .7: return g.msg(m, f)
    b = g.corrupt(m, f, g.msg(m, f))
    return b or [0] * 4
def C06(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["kind"] != "ci"):
        for i in range(g.n(12 if multi(m) else 4)):
            b = g.msg(m, f)
            t = trailing(g, m, f)
            for ty in [m["ty"]] + [a for a in g.aggs(m, f) if r.random() < .3]:
                out.append([dict(op="load", ty=m["ty"], form=f, kind="S", buf=[], cap=0, fresh=1), g.parse(ty, f, b, key="p"), g.parse(ty, f, b + t, key="p", soft=1)])
        if not multi(m): 
            for i in range(g.n(2)): # larger mutable buffers
                n = g.minlen(m, f)
                s = [dict(op="set", f=x["n"], v=g.value(x)) for x in sub(g.fields(m, f), 3, r)]
                for q, k in enumerate(("V", "SF", "MS")):
                    init = [] if k == "V" else g.octs(n + (4 if f == "u" else 1) * r.randrange(1, 12))
                    e = g.new(m, f, k, "with", init)
                    if q == 0: e["fresh"] = 1
                    out.append([e] + [dict(x) for x in s] + [dict(op="read", key="r")])
                join(out, 3)
            continue
        for i in range(g.n(8)):
            s = []
            for _ in range(r.randrange(1, 6)):
                s.append(edit(g, m, f, r.choice([0, 1, 5, 12, 13, 14, 24, 26, 28, 30])))
                if r.random() < .4 and g.fields(m, f): s.append(g.setv(r.choice(g.fields(m, f))))
            u = 4 if f == "u" else 1
            for q, k in enumerate(("V", "SF", "MS", "ST", "A")):
                if k == "A": k = "A%d" % g.arrays(m, f)[-1]
                big = 80 if f == "b" else 40
                init = [] if k in ("V", "ST") else g.octs(u * (int(k[1:]) if k[0] == "A" else big))
                e = g.new(m, f, k, "with", init, 80)
                if q == 0: e["fresh"] = 1
                lim = (int(k[1:]) if k[0] == "A" else 80) 
                ss = [dict(x) for x in s]
                out.append([e] + ss + [dict(op="read", key="r", soft=1) if k[0] != "A" else dict(op="read")])
            join(out, 5)
    for m, f in big_types(g):
        for n in g.big_lens(m, g.n(2 if m["kind"] == "text" else 8)):
            b = big_msg(g, m, f, n)
            out.append([dict(op="load", ty=m["ty"], form=f, kind="S", buf=[], cap=0, fresh=1), g.parse(m, f, b, key="p"), g.parse(m, f, b + trailing(g, m, f), key="p", soft=1)])
    bigs(g, out, lambda m, f: True, 1, [dict(op="read")], grow=False)
    for m, f, b in huge_msgs(g, lambda m, f: True):
        out.append([dict(op="load", ty=m["ty"], form=f, kind="S", buf=[], cap=0, fresh=1), g.parse(m, f, b, key="p"), g.parse(m, f, b + trailing(g, m, f), key="p", soft=1)])
    return out
def join(out, n):
    """makes one group of the last n groups"""
    x = sum(out[-n:], [])
    del out[-n:]
    out.append(x)
def edit(g, m, f, n):
    if m["kind"] == "text": return dict(op="text", v=g.text(n))
    return dict(op="sx_set", items=g.pl(m, n), hint=g.r.choice(HINTS))

# ------------------------------------------------------------------ C07
def C07(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["size"] > 0):
        if f != "u": continue
        for i in range(g.n(12 if multi(m) else 3)):
            b = g.msg(m, f, 6)
            out.append([g.parse(m, f, b)])
            for a in g.aggs(m, f): out.append([g.parse(a, f, b)])
            n = len(b) // (m["size"] if m["kind"] != "text" else 16)
            out.append([g.load(m, f, "S", b), dict(op="wrap", lvl=r.choice(["fam", "fam2", "top"])), dict(op="read"), dict(op="iter", what="pk", calls=calls(g, n))])
        for i in range(g.n(2 if not multi(m) else 6)):
            s = [g.new(m, f, r.choice(["V", "MV", "ST"]), "with", g.octs(16), 80)]
            for _ in range(r.randrange(1, 5)):
                fs = g.fields(m, f)
                if multi(m): s.append(edit(g, m, f, r.choice([0, 3, 6, 7, 12, 13, 14, 15, 26, 27, 28, 42, 60])))
                elif fs: s.append(g.setv(r.choice(fs)))
                if fs: s.append(g.setv(r.choice(fs)))
                s.append(dict(op="read"))
                s.append(dict(op="iter", what="pk", calls=calls(g, 3)))
            out.append(s)
    layout_reads(g, out)
    bigs(g, out, lambda m, f: f == "u", lambda m: 1 if m["kind"] == "text" else 12, [dict(op="read"), dict(op="iter", what="pk", calls=calls(g, 30))])
    for m, f, b in huge_msgs(g, lambda m, f: f == "u"): out.append([g.load(m, f, "S", b), dict(op="read"), dict(op="iter", what="pk", calls=calls(g, len(b) // 16)), dict(op="iter", what="pk", calls=calls(g, 260))])
    return out

# ------------------------------------------------------- C08, C09, C10
def sx_types(g): return [(m, f) for m, f in g.tf(lambda m: m["kind"] == "sysex")]
def sx_start(g, m, f, kinds):
    """a session start: a fresh or a parsed message; returns (op, payload length)"""
    r = g.r
    k = r.choice(kinds)
    u = 4 if f == "u" else 1
    c = g.cap(m)
    if k in ("V", "MV", "MS") or k[0] == "A" or r.random() < .35:
        n = r.choice([2, 3, 4, 5, 8, 9, 12, 13, 16, 20, 24, 40]) if f == "u" else r.choice([2, 3, 4, 5, 9, 17, 33])
        if m["fam"] == "sx8" and f == "u": n = max(4, n)
        if k == "SV" or k == "ST": init, cap = g.octs(u * r.choice([0, n])), n
        elif k[0] == "A": init, cap = g.octs(u * int(k[1:])), None
        else: init, cap = g.octs(u * n), None
        return g.new(m, f, k, "with", init, cap, dirt=r.choice([0, 255, 0x5A])), 0
    if f == "b":
        n = r.choice([0, 1, 2, 5, 9])
        b = g.sx(m, "b", n)
    elif r.random() < .5:
        n = r.choice([0, 1, c - 1, c, c + 1, 2 * c, 2 * c + 1, 3 * c])
        b = g.sx(m, "u", n)
    else:
        sizes = [r.choice([0, 1, c, c - 1, r.randrange(c + 1)]) for _ in range(r.randrange(1, 6))]
        n = sum(sizes)
        b = g.sx_ump(m, sizes, noise=r.random() < .3)
    cap = len(b) // u + r.choice([0, 0, 1, 2, 3, 4, 8])
    return g.load(m, f, k, b, cap, dirt=r.choice([0, 255])), n
def sx_op(g, m, n, lim, fixed=False):
    """an edit of a payload of n octets; returns (op, length if it succeeds)"""
    r = g.r
    c = g.cap(m)
    k = r.choice([0, 1, 2, c - 1, c, c + 1, 2 * c, 2 * c + 1, r.randrange(lim + 1), r.randrange(4)])
    k = min(k, lim)
    h = r.choice(HINTS)
    if fixed and r.random() < .06:
        a = r.randrange(n + 1); b = r.randrange(a, n + 1)
        return dict(op=r.choice(["sx_set", "sx_append", "sx_splice", "sx_splice", "sx_insert"]), items=g.pl(m, min(k, 9)), hint=r.choice(["endless", "endless", "endless-half", "endless-none"]), a=a, b=b, range=".."), 0
    x = r.random()
    if x < .12: return dict(op="sx_set", items=g.pl(m, k), hint=h), k
    if x < .24: return dict(op="sx_append", items=g.pl(m, k), hint=h), n + k
    if x < .32: return dict(op="sx_append1", items=g.pl(m, 1), hint="exact"), n + 1
    if x < .48: return dict(op="sx_insert", items=g.pl(m, k), hint=h, a=r.choice([0, n, r.randrange(n + 1)])), n + k
    if x < .58 and n: return dict(op="sx_byte", items=g.pl(m, 1), hint="exact", a=r.choice([0, n - 1, r.randrange(n)])), n
    a = r.choice([0, n, r.randrange(n + 1)])
    b = r.choice([a, n, r.randrange(a, n + 1)])
    ok = [".."]
    if b > a: ok.append("..=")
    if b == n: ok.append("a..")
    if a == 0: ok.append("..b")
    if a == 0 and b > 0: ok.append("..=b")
    if a == 0 and b == n: ok.append("full")
    if a > 0: ok.append("ex")
    return dict(op="sx_splice", items=g.pl(m, k), hint=h, a=a, b=b, range=r.choice(ok)), n - (b - a) + k
def sx_session(g, m, f, kinds, steps, tail, headers=.3):
    r = g.r
    s, n = sx_start(g, m, f, kinds)
    s = [s]
    fs = g.fields(m, f)
    if r.random() < .8:
        for x in fs: s.append(g.setv(x))
    lim = 40 if f == "u" else 24
    for _ in range(steps):
        op, n2 = sx_op(g, m, n, lim, s[0]["kind"] not in GROW)
        n = n2 if n2 <= 90 else 0
        if n2 > 90: op = dict(op="sx_set", items=[], hint="exact")
        s.append(op)
        s += [dict(t) for t in tail]
        if fs and r.random() < headers: s.append(g.setv(r.choice(fs)))
    return s
def sx_layouts(g, m):
    """packet sizes: every size before a packet, runs of empty packets, empty first / last packets"""
    r, c = g.r, g.cap(m)
    for s in range(c + 1):
        yield [s, r.choice([0, 1, c])]; yield [c, s, r.randrange(c + 1)]; yield [r.randrange(c + 1), c, s]
    for n in (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33):
        k = r.randrange(1, c + 1)
        yield [k] + [0] * n + [r.choice([0, 1, c])]; yield [0] * n + [k]; yield [0] * n; yield [k] + [0] * n
        yield [1] * n; yield [c] * n + [1]
        x = [0] * n; x[r.randrange(n)] = k; yield x + [0, k]
def layout_edits(g, out, kinds, tail, keep=1.0):
    r = g.r
    for m, f in sx_types(g):
        if f != "u": continue
        for lay in sx_layouts(g, m):
            n = sum(lay)
            for rep in range(g.n(1)):
                if r.random() > keep: continue
                k = r.choice(kinds)
                k = k if k in ("SV", "SF", "ST", "V") else "SV"
                b = g.sx_ump(m, lay)
                s = [g.load(m, f, k, b, len(b) // 4 + r.choice([0, 1, 4, 12]), dirt=255), dict(op="read")]
                op, n2 = sx_op(g, m, n, 3 * g.cap(m) + 2, k not in GROW)
                s += [op] + [dict(t) for t in tail]
                if n2 < 90 and (k in GROW or op["op"] == "sx_byte"): s += [sx_op(g, m, n2, 20)[0]] + [dict(t) for t in tail]
                out.append(s)
GROW = ["SV", "SV", "V", "MV"]
def fixk(g, m, f): return ["SF", "ST", "ST", "MS"] + ["A%d" % n for n in g.arrays(m, f)]
def C08(g):
    r = g.r
    out = []
    rd = [dict(op="read")]
    for m, f in sx_types(g):
        c = g.cap(m)
        for i in range(g.n(90)): out.append(sx_session(g, m, f, GROW + ["ST"], 5, rd))
        for n in (0, 1, c, c + 1, 2 * c): # systematic single splices around the packet boundaries
            for a in {0, 1, c - 1, c, c + 1, n - 1, n}:
                for b in {a, a + 1, c, n}:
                    if not (0 <= a <= b <= n): continue
                    for k in (0, 1, c, 2 * c + 1):
                        if r.random() < .35 * g.scale:
                            out.append([g.load(m, f, "SV", g.sx(m, f, n)), dict(op="sx_splice", items=g.pl(m, k), hint=r.choice(HINTS), a=a, b=b, range=".."), dict(op="read")])
        for n in (0, 1, c, 2 * c + 1): # documented panics
            for kind in ("SV", "V"):
                for d in (0, 1, 2, 7, 1000):
                    out.append([g.load(m, f, kind, g.sx(m, f, n)), dict(op="sx_byte", items=[5], hint="exact", a=n + d)])
                    if d: out.append([g.load(m, f, kind, g.sx(m, f, n)), dict(op="sx_insert", items=g.pl(m, r.randrange(3)), hint="exact", a=n + d)])
    bigs(g, out, lambda m, f: m["kind"] == "sysex", 40, [dict(op="read")], fix=False)
    layout_edits(g, out, ["SV", "V", "ST"], rd)
    huges(g, out, lambda m, f: m["kind"] == "sysex", rd, 6, fix=False)
    return out
def C09(g):
    r = g.r
    out = []
    rd = [dict(op="read")]
    for m, f in sx_types(g):
        c, ps = g.cap(m), g.minlen(m, f)
        for i in range(g.n(120)): out.append(sx_session(g, m, f, fixk(g, m, f), 6, rd))
        for pk in range(1, 4): # capacities around the encoded size of the result
            for extra in (0, 1, 2, 3):
                for n in (pk * c, pk * c + 1, pk * c - 1, 0):
                    for h in HINTS:
                        if r.random() > .5 * g.scale: continue
                        cap = (pk * ps // 4 + extra) if f == "u" else pk * c + 2 + extra - 1
                        k = r.choice(["SF", "ST", "MS"])
                        st = g.new(m, f, k, "with", g.octs(cap * (4 if f == "u" else 1)) if k != "ST" else [], cap)
                        n0 = r.choice([0, 1, c, min(n, pk * c)])
                        s = [st] + [g.setv(x) for x in g.fields(m, f)] + [dict(op="sx_set", items=g.pl(m, n0), hint="exact")]
                        a = r.randrange(n0 + 1); b = r.randrange(a, n0 + 1)
                        k2 = max(0, n - (n0 - (b - a)))
                        s += [dict(op="sx_splice", items=g.pl(m, k2), hint=h, a=a, b=b, range=".."), dict(op="read"),
                              dict(op="sx_append", items=g.pl(m, r.choice([1, 3])), hint="exact"), dict(op="read"),
                              dict(op="sx_splice", items=g.pl(m, r.randrange(90)), hint=r.choice(HINTS), a=0, b=0, range=".."), dict(op="read")]
                        out.append(s)
    bigs(g, out, lambda m, f: m["kind"] == "sysex", 60, [dict(op="read")], grow=False)
    layout_edits(g, out, ["SF", "ST"], rd)
    huges(g, out, lambda m, f: m["kind"] == "sysex", rd, 6, grow=False)
    return out
def C10(g):
    out = []
    for m, f in sx_types(g):
        out += [[g.new(m, f, k, "with", g.octs(64), 64), dict(op="reparse")] for k in ("V", "SV", "MS", "SF", "ST")]
        for i in range(g.n(110)): out.append(sx_session(g, m, f, GROW + fixk(g, m, f), 6, [dict(op="reparse")]))
    bigs(g, out, lambda m, f: m["kind"] == "sysex", 40, [dict(op="reparse")])
    layout_edits(g, out, ["SV", "V", "ST", "SF"], [dict(op="reparse")])
    huges(g, out, lambda m, f: m["kind"] == "sysex", [dict(op="reparse")], 6)
    return out

# ------------------------------------------------------------------ C11
def C11(g):
    r = g.r
    out = []
    for m, f in sx_types(g):
        for i in range(g.n(160)):
            if f == "b": n = r.randrange(12); b = g.sx(m, f, n); k = n
            else:
                c = g.cap(m)
                sizes = [r.choice([0, 0, 1, 2, c, c, r.randrange(c + 1)]) for _ in range(r.randrange(1, 6))]
                n, k = sum(sizes), len(sizes)
                b = g.sx_ump(m, sizes)
            out.append([g.load(m, f, "S", b)] + [dict(op="iter", what="pl", calls=calls(g, n)) for _ in range(3)]
                       + ([dict(op="iter", what="pk", calls=calls(g, k))] if f == "u" else []))
    for m, f in sx_types(g):
        if f == "u":
            for lay in sx_layouts(g, m):
                b, n = g.sx_ump(m, lay), sum(lay)
                out.append([g.load(m, f, "S", b), dict(op="iter", what="pl", calls=[["all", 0]])] + [dict(op="iter", what="pl", calls=calls(g, n)) for _ in range(2)]
                           + [dict(op="iter", what="pk", calls=calls(g, len(lay)))])
    for m, f in g.tf(lambda m: m["kind"] == "text"):
        for i in range(g.n(10)):
            c = g.tcap(m)
            n = r.choice([0, 1, c - 1, c, c + 1, 2 * c, 2 * c + 3, 3 * c])
            b = g.text_msg(m, g.text(n), r.choice([None, None, None, 4]) if n <= 3 * c else None)
            for j in range(len(b)): # NULs between the text bytes are skipped
                if j % 16 >= g.toff(m) and b[j] < 128 and r.random() < .1: b[j] = 0
            out.append([g.load(m, f, "S", b), dict(op="iter", what="tx", calls=calls(g, n, 10, ("next", "hint", "nth", "hint"))), dict(op="iter", what="pk", calls=calls(g, 3))])
    for m, f in g.tf(lambda m: m["size"] and not multi(m)):
        if f == "u":
            for i in range(g.n(1)): out.append([g.load(m, f, "S", g.msg(m, f)), dict(op="iter", what="pk", calls=calls(g, 1))])
    for fam in ("sx7", "sx8"):
        for i in range(g.n(260)):
            st = r.choice([0, 16, 32, 48])
            if fam == "sx7": b = [0x30 + r.randrange(16), st + r.randrange(7)] + [r.randrange(128) for _ in range(6)]
            else: b = [0x50 + r.randrange(16), st + r.randrange(1, 15)] + [r.randrange(256) for _ in range(14)]
            out.append([dict(op="pkt", fam=fam, buf=b, set=[], calls=calls(g, 13))])
    for m, f in big_types(g):
        for i in range(g.n(2 if m["kind"] == "text" else 30)):
            n = g.big_lens(m, 1)[0]
            b = big_msg(g, m, f, n)
            w = "tx" if m["kind"] == "text" else "pl"
            nm = ("next", "hint", "nth", "hint") if w == "tx" else ("next", "nth", "len", "hint", "nth", "next")
            out.append([g.load(m, f, "S", b), dict(op="iter", what=w, calls=calls(g, n, 10, nm)), dict(op="iter", what=w, calls=calls(g, n // 3, 10, nm))]
                       + ([dict(op="iter", what="pk", calls=calls(g, len(b) // 16)) for _ in range(2)] if f == "u" else []))
    for m, f, b in huge_msgs(g, lambda m, f: True, 9):
        w, n = "tx" if m["kind"] == "text" else "pl", len(b)
        nm = ("next", "hint", "nth", "hint") if w == "tx" else ("next", "nth", "len", "hint", "nth", "next")
        out.append([g.load(m, f, "S", b)] + [dict(op="iter", what=w, calls=calls(g, k, 10, nm)) for k in (n, n // 2, 256, 300)] + ([dict(op="iter", what="pk", calls=calls(g, len(b) // 16))] if f == "u" else []))
    return out

# ------------------------------------------------------------ C12, C13
def C12(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["kind"] == "text"):
        c = g.tcap(m)
        ns = [0, 1, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 3 * c, 4 * c, 5 * c]
        for i in range(g.n(9)):
            k = r.choice(["SV", "V", "MV", "SF", "ST", "MS"] + ["A%d" % n for n in g.arrays(m, f)])
            cap = r.choice([4, 5, 7, 8, 9, 12, 16, 20, 27])
            if k in ("SV", "ST", "SF") and r.random() < .5:
                b = g.text_msg(m, g.text(r.choice(ns[:9]))) 
                s = [g.load(m, f, k, b, cap, dirt=255)]
            else: s = [g.new(m, f, k, "with", g.octs(4 * (int(k[1:]) if k[0] == "A" else cap)), cap, dirt=255)]
            for _ in range(6):
                s.append(dict(op="text", v=g.text(r.choice(ns + [r.randrange(5 * c)]), r.random() < .6)))
                s.append(dict(op="read"))
                fs = g.fields(m, f)
                if fs and r.random() < .4: s.append(g.setv(r.choice(fs)))
            out.append(s)
    for m, f in g.tf(lambda m: m["kind"] == "text"): # every length around the packet boundaries, fresh and over an old text, exact fits
        c = g.tcap(m)
        for n in [0, 1] + [c * i + d for i in (1, 2, 3, 4, 5, 6) for d in (-1, 0, 1)] + g.big_lens(m, 3):
            k = r.choice(["V", "SV", "SF", "ST", "MS"])
            cap = enc_units(g, m, f, n) + (r.choice([0, 0, 1, -4]) if k in ("SF", "ST", "MS") else 0)
            cap = max(4, cap)
            s = [g.new(m, f, k, "with", [r.randrange(1, 256) for _ in range(4 * cap)], cap, dirt=255)] + [g.setv(x) for x in g.fields(m, f)]
            out.append(s + [dict(op="text", v=g.text(n)), dict(op="read"), dict(op="text", v=g.text(r.choice([0, n, n + 1, max(0, n - 1), r.randrange(n + 2 * c)]))), dict(op="read")])
    bigs(g, out, lambda m, f: m["kind"] == "text", 1, [dict(op="read")])
    huges(g, out, lambda m, f: m["kind"] == "text", [dict(op="read")])
    return out
def C13(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: multi(m) and (m["size"] > 0)):
        if f != "u" or not g.fields(m, f): continue
        c = g.tcap(m) if m["kind"] == "text" else g.cap(m)
        for i in range(g.n(7 if m["kind"] == "text" else 90)):
            k = r.choice(["SV", "SV", "ST", "SF", "MS", "V"])
            if k in ("SV", "ST", "SF") and r.random() < .6: s = [g.load(m, f, k, g.msg(m, f), r.choice([16, 20, 40]), dirt=255)]
            else: s = [g.new(m, f, k, "with", g.octs(4 * r.choice([16, 20, 30, 40])), 40, dirt=255)]
            for _ in range(7):
                if r.random() < .55: s.append(g.setv(r.choice(g.fields(m, f))))
                elif m["kind"] == "text": s.append(edit(g, m, f, r.choice([0, 1, c - 1, c, c + 1, 2 * c, 3 * c, 3 * c + 1])))
                else: s.append(sx_op(g, m, 0, 3 * c + 2)[0] if r.random() < .4 else edit(g, m, f, r.choice([0, c, c + 1, 2 * c + 1, 3 * c])))
                if s[-1]["op"] in ("sx_insert", "sx_splice", "sx_byte"): # positions need the current length; keep to set / append here
                    s[-1] = dict(op="sx_append", items=g.pl(m, r.randrange(c)), hint="exact")
                if r.random() < .5: s.append(dict(op="reparse"))
                if r.random() < .5: s.append(dict(op="read"))
            out.append(s)
    bigs(g, out, lambda m, f: f == "u", lambda m: 2 if m["kind"] == "text" else 25, [dict(op="reparse"), dict(op="read")])
    huges(g, out, lambda m, f: f == "u", [dict(op="reparse"), dict(op="read")])
    for m, f in g.tf(lambda m: m["kind"] == "text"): # header values of an old, dirty buffer
        for i in range(g.n(2)):
            s = [g.new(m, f, r.choice(["SF", "MS", "ST"]), "with", [r.choice([255, r.randrange(1, 256)]) for _ in range(4 * 44)], 44, dirt=255)]
            for n in g.big_lens(m, 2):
                s += [g.setv(x) for x in g.fields(m, f)] + [dict(op="text", v=g.text(n % 120)), dict(op="reparse"), dict(op="read")]
            out.append(s)
    return out

# ------------------------------------------------------------------ C14
def conv_targets(g, m, f):
    """(api, to, cap) of every conversion of m from form f"""
    f2 = "b" if f == "u" else "u"
    t = [("from", "V", 0), ("from", "SV", 0), ("into", "V", 0), ("into", "SV", 0)]
    for n in g.arrays(m, f2):
        k = "A%d" % n
        if m["kind"] == "fixed": t.append(("from", k, n))
        t += [("try_from", k, n), ("try_into", k, n)]
    for n in g.small_arrays(m, f2): t.append(("try_from", "A%d" % n, n))
    mn = g.minunits(m, f2)
    for k in ("SF", "ST"):
        for cap in {mn - 1, mn, mn + 1} | ({4, 5, 6, 7, 8, 12} if m["kind"] == "sysex" else set()): t.append(("try_from", k, cap))
    return t
def canonical(g, m, f):
    if m["kind"] == "sysex":
        b = g.sx(m, f, g.r.choice([0, 1, 2, 3, 5, 6, 7, 10, 12, 13, 18, 19, 25])) if g.r.random() < .6 else g.msg(m, f)
        return b
    b = [0] * g.minlen(m, f)
    for fd in m["fields"]:
        o = fd["o"] - g.sh(m, f)
        if o < 0: continue
        if fd["k"] == "l14": putb(b, o + 1, 7, g.r.randrange(128)); putb(b, o + 9, 7, g.r.randrange(128))
        else: putb(b, o, fd["w"], g.r.choice([0, (1 << fd["w"]) - 1, g.r.randrange(1 << fd["w"])]))
    return g.hdr(m, f, b)
def C14(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["bsize"] > 0 and m["kind"] != "ci"):
        for i in range(g.n(1 if m["kind"] != "sysex" else 14)):
            for api, to, cap in conv_targets(g, m, f):
                b = canonical(g, m, f)
                k = r.choice(["S", "V", "SV"])
                if f == "u" and i % 2 == 1 and m["kind"] == "fixed": b = g.msg(m, f)
                s = [g.load(m, f, k, b), dict(op="conv", api=api, to=to, cap=cap)]
                if r.random() < .5: s.append(dict(op="conv", api=r.choice(["from", "into"]), to=r.choice(["V", "SV"]), cap=0))
                if r.random() < .3: s.append(dict(op="read"))
                out.append(s)
        for i in range(g.n(3)):
            a = g.aggs(m, f)[0]
            if not a.startswith("agg:cv1") and not a.startswith("agg:sys"): continue
            for api, to, cap in [("from", "V", 0), ("from", "SV", 0), ("try_from", "SF", 1), ("try_from", "SF", 2), ("try_from", "SF", 3), ("try_from", "SF", 0)]:
                s = [g.load(m, f, r.choice(["S", "V"]), canonical(g, m, f)), dict(op="wrap", lvl="fam"), dict(op="conv", api=api, to=to, cap=cap), dict(op="read")]
                out.append(s)
        if not multi(m):
            for i, b in enumerate(g.sweep(m, f)):
                if (i + len(out)) % 2: out.append([g.load(m, f, r.choice(["S", "V"]), b), dict(op="conv", api=r.choice(["from", "into"]), to=r.choice(["V", "SV"]), cap=0)])
    for m, f, b in huge_msgs(g, lambda m, f: m["fam"] == "sx7", 6):
        out.append([g.load(m, f, "S", b), dict(op="conv", api="from", to=r.choice(["V", "SV"]), cap=0), dict(op="read"), dict(op="conv", api="into", to="V", cap=0)])
        out.append([g.load(m, f, "S", b), dict(op="conv", api="try_from", to=r.choice(["SF", "ST"]), cap=2 * len(b)), dict(op="read")])
    for m, f in sx_types(g):
        if m["fam"] != "sx7": continue
        for n in g.big_lens(m, g.n(30)):
            b = big_msg(g, m, f, n)
            f2 = "b" if f == "u" else "u"
            fit = enc_units(g, m, f2, n)
            for api, to, cap in [("from", "V", 0), ("into", "SV", 0), ("try_from", "SF", fit), ("try_from", "ST", fit + r.choice([0, 1, 2])), ("try_from", "SF", fit - 1),
                                 ("try_from", "A%d" % g.big_array(m, f2), g.big_array(m, f2)), ("try_into", "A%d" % g.big_array(m, f2), g.big_array(m, f2))]:
                out.append([g.load(m, f, r.choice(["S", "V", "SV"]), b), dict(op="conv", api=api, to=to, cap=cap), dict(op="read")])
    return out

# ------------------------------------------------------------------ C15
def rebuf_targets(g, m, f, agg=False):
    t = [(a, k, 1 << 20) for a in (("from", "into") if not agg else ("from",)) for k in ("V", "SV", "SF", "ST") if not (m["kind"] == "ci" and k == "ST") and not (agg and k == "ST")]
    ns = g.arrays(m, f) + g.small_arrays(m, f) if not agg else ([1, 2, 3, 4, 5, 8, 12, 20] if f == "u" else [1, 2, 3, 8, 16, 32])
    for n in ns:
        t.append(("try_from", "A%d" % n, n))
        if not agg and n not in g.small_arrays(m, f): t.append(("try_into", "A%d" % n, n))
    return t
def C15(g):
    r = g.r
    out = []
    for m, f in g.tf():
        u = 4 if f == "u" else 1
        ts = rebuf_targets(g, m, f)
        for i in range(g.n(1 if not multi(m) else 3)):
            for api, to, cap in ts:
                b = g.msg(m, f)
                if f == "u" and not multi(m) and m["fam"] not in ("flex", "stream") and r.random() < .3: b = b + g.octs(4 * r.randrange(1, 4))
                out.append([g.load(m, f, "V" if to[0] == "A" and r.random() < .4 else "S", b, fresh=1), dict(op="read", key="r"), dict(op="rebuf", api=api, to=to, cap=cap), dict(op="read", key="r")])
            if m["kind"] != "ci":
                for n in g.arrays(m, f):
                    for n2 in g.arrays(m, f):
                        if n2 >= n:
                            b = g.msg(m, f)
                            if len(b) > n * u: b = g.msg(m, f, 1)
                            out.append([g.load(m, f, "A%d" % n, b, fresh=1), dict(op="read", key="r"), dict(op="rebuf", api="array", to="A%d" % n2, cap=n2), dict(op="read", key="r")])
            # mutable slices as sources
            out.append([g.new(m, f, "MS", "with", g.octs(u * (g.minunits(m, f) + r.randrange(0, 9))), fresh=1)] + [g.setv(x) for x in sub(g.fields(m, f), 2, r)]
                       + [dict(op="read", key="r"), dict(op="rebuf", api="from", to=r.choice(["V", "S"]), cap=1 << 20), dict(op="read", key="r")])
            # a mutable slice shorter than, exactly as long as, and longer than the array it is moved to
            for api, to, cap in ts:
                if to[0] != "A": continue
                for d in (-1, 0, 1):
                    k = cap + d
                    if k < g.minunits(m, f): continue
                    out.append([g.new(m, f, "MS", "with", g.octs(u * k), fresh=1)] + [g.setv(x) for x in sub(g.fields(m, f), 1, r)]
                               + [dict(op="read", key="r"), dict(op="rebuf", api=api, to=to, cap=cap), dict(op="read", key="r")])
        if m["kind"] != "ci":
            for i in range(g.n(1 if not multi(m) else 2)):
                for api, to, cap in rebuf_targets(g, m, f, True):
                    out.append([g.load(m, f, r.choice(["S", "V"]) if api == "try_from" else "S", g.msg(m, f)), dict(op="wrap", lvl=r.choice(["fam", "top", "fam2"] if m["fam"] not in ("sx7", "sx8") else ["top"])),
                                dict(op="rebuf", api=api, to=to, cap=cap), dict(op="read") if api == "from" else dict(op="iter", what="pl", calls=[])])
    for m, f in sx_types(g):
        for n in g.big_lens(m, g.n(12)):
            b = big_msg(g, m, f, n)
            q = g.big_array(m, f)
            for api, to, cap in [("from", "V", 1 << 20), ("from", "SF", 1 << 20), ("try_from", "A%d" % q, q), ("try_into", "A%d" % q, q)]:
                out.append([g.load(m, f, r.choice(["V", "S"]) if api[0] == "t" else "S", b, fresh=1), dict(op="read", key="r"), dict(op="rebuf", api=api, to=to, cap=cap), dict(op="read", key="r")])
    for m, f, b in huge_msgs(g, lambda m, f: True):
        out.append([g.load(m, f, "S", b, fresh=1), dict(op="read", key="r"), dict(op="rebuf", api=r.choice(["from", "into"]), to=r.choice(["V", "SV", "SF"]), cap=1 << 20), dict(op="read", key="r")])
    return out

# ------------------------------------------------------------------ C16
def C16(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["kind"] != "ci"):
        lv = ["top"] if m["fam"] in ("sx7", "sx8") else ["fam", "fam2", "top"]
        for i in range(g.n(2)):
            for lvl in lv:
                k = r.choice(["S", "V", "SV", "SF"])
                b = g.msg(m, f)
                out.append([g.load(m, f, k, b, fresh=1), dict(op="read", key="r"), dict(op="wrap", lvl=lvl), dict(op="read", key="r"), dict(op="reparse")])
                if m["kind"] in ("fixed", "fixnc") and m["fam"] not in ("flex", "stream") and r.random() < .5:
                    b2 = b + g.octs(4 if f == "u" else 1)
                    out.append([g.load(m, f, k, b2, fresh=1), dict(op="read", key="r"), dict(op="wrap", lvl=lvl), dict(op="read", key="r")])
            hs = [x for x in g.fields(m, f) if x["n"] in ("group", "channel")]
            if i == 0 and hs and m["fam"] not in ("sx7", "sx8"): # every group and channel after every other kind of value
                vs = [(x, v) for x in hs for v in range(16)]; r.shuffle(vs)
                out.append([g.load(m, f, r.choice(["V", "SV"]), g.msg(m, f)), dict(op="wrap", lvl="fam")] + [g.setv(x, v) for x, v in vs])
            if hs and m["fam"] not in ("sx7", "sx8"):
                for lvl in ["fam"]:
                    k = r.choice(["V", "SV", "SF"])
                    b = g.msg(m, f)
                    s = [g.setv(r.choice(hs), key="s%d" % j) for j in range(4)]
                    out.append([g.load(m, f, k, b, fresh=1)] + s + [dict(op="read", key="r"), g.load(m, f, k, b), dict(op="wrap", lvl=lvl)] + [dict(x) for x in s]
                               + [dict(op="read", key="r"), dict(op="reparse")] + ([dict(op="wrap", lvl="top"), dict(op="read", key="r"), dict(op="reparse")]))
    return out

# ------------------------------------------------------------------ C17
def C17(g):
    r = g.r
    out = []
    for fam in FAMS + ["any"]:
        for i in range(g.n(150 if fam in ("sx7", "sx8", "any") else 60)): out.append([wild_pkt(g, fam)])
        for t in range(16): # type nibbles and lengths
            for n in range(6):
                b = g.octs(4 * n)
                if n: b[0] = t * 16 + r.randrange(16); b[1] = r.choice([1, 0x11, 0x21, 0x31, b[1]])
                out.append([dict(op="pkt", fam=fam, buf=b, set=[], calls=[])])
    for fam in ("sx7", "sx8", "any"): # all status and size nibbles
        for t in ((3,) if fam == "sx7" else (5,) if fam == "sx8" else (3, 5)):
            for x in range(256):
                if x >= 80 and r.random() < .6: continue
                b = [t * 16 + r.randrange(16), x] + [r.choice([0, r.randrange(256)]) for _ in range(14)]
                if r.random() < .2: b[3:] = [0] * 13
                out.append([dict(op="pkt", fam=fam, buf=b, set=[], calls=[["all", 0]])])
    return out

# ------------------------------------------------------------------ C18
def C18(g):
    r = g.r
    out = []
    for m, f in g.tf(lambda m: m["kind"] == "ci"):
        fs = g.fields(m, f)
        n = m["bsize"]
        for i in range(g.n(60)): # sessions of setters on every buffer
            k = r.choice(["V", "MV", "SV", "MS", "SF", "ST", "A%d" % (n + 4)])
            ln = n + r.randrange(0, 9)
            if k[0] == "A": ln = int(k[1:])
            x = g.new(m, f, k, "with", g.octs(ln) if k != "ST" or r.random() < .5 else [], n + 6, dirt=255)
            s = [x, dict(op="read")]
            for _ in range(8): s.append(g.setv(r.choice(fs)))
            out.append(s + [dict(op="read"), dict(op="reparse")])
        for fd in fs:
            for v in g.values(fd, g.n(8)): out.append([g.new(m, f, "SV", "with", g.octs(n)), g.setv(fd, v), dict(op="read"), dict(op="reparse")])
            for v in g.values(fd, g.n(6)): out.append([g.load(m, f, "SV", g.fixed(m, f, [0] + [127] * (n - 2) + [0])), g.setv(fd, v), dict(op="read")])
        for k in ("MS", "SF", "ST"):
            for ln in (0, 1, n - 1, n, n + 1): out.append([g.new(m, f, k, "with", g.octs(ln), ln)])
        out.append([g.new(m, f, "A%d" % (n - 1), "with", g.octs(n - 1))])
        out.append([g.new(m, f, "A%d" % (n - 1), "try_new")])
        out.append([g.new(m, f, "V", "new"), dict(op="read")])
        for i in range(g.n(60)): out.append([g.parse(m, f, g.fixed(m, f))])
        for b in g.sweep(m, f): out.append([g.parse(m, f, b)])
        for fd in fs:
            vs = g.allvalues(fd); r.shuffle(vs)
            out.append([g.load(m, f, "SV", g.fixed(m, f))] + [g.setv(fd, v) for v in vs])
        b = g.fixed(m, f)
        for i in range(8 * n): # every single bit corruption
            x = list(b); x[i // 8] ^= 1 << (7 - i % 8)
            if r.random() < .6 * g.scale or i < 64 or x[i // 8] >= 128: out.append([g.parse(m, f, x)])
        for i in range(n + 1): out.append([g.parse(m, f, b[:i])])
        for i in range(g.n(150)): out.append([g.parse(m, f, g.wild(m, f))])
        for m2 in g.T:
            if m2["kind"] == "ci" and m2 is not m:
                for i in range(5): out.append([g.parse(m, f, g.fixed(m2, f) + [0xF7] * i)])
        for api, to, cap in rebuf_targets(g, m, f): out.append([g.load(m, f, "S", b), dict(op="rebuf", api=api, to=to, cap=cap), dict(op="read")])
    return out

# ------------------------------------------------------------------ C19
def C19(g):
    r = g.r
    out = []
    for m, f in g.tf():
        fs = g.fields(m, f)
        u = 4 if f == "u" else 1
        for i in range(g.n(1 if not multi(m) else 4 if m["kind"] == "text" else 40)):
            s = []
            n = 0
            cap = max(g.arrays(m, f))
            lim = {"text": (cap // 4) * g.tcap(m) if m["kind"] == "text" else 0, "sysex": ((cap * 4 // m["size"]) * g.cap(m) if f == "u" and m["size"] else cap - 2)}.get(m["kind"], 0)
            for j in range(5):
                if multi(m) and r.random() < .7:
                    if m["kind"] == "text": s.append(dict(op="text", v=g.text(r.choice([0, lim, r.randrange(lim + 1), r.randrange(min(lim, 14) + 1)]))))
                    else:
                        op, n2 = sx_op(g, m, n, lim)
                        if n2 > lim: op, n2 = dict(op="sx_set", items=g.pl(m, r.choice([0, 1, lim])), hint="exact"), None
                        n = len(op["items"]) if n2 is None else n2
                        s.append(op)
                elif fs: s.append(g.setv(r.choice(fs)))
                if r.random() < .4: s.append(dict(op="read"))
                if multi(m) and r.random() < .2: s.append(dict(op="reparse"))
            s.append(dict(op="read"))
            grp = []
            for q, k in enumerate(["V", "MV", "MS", "SV", "SF", "ST", "A%d" % cap]):
                if k[0] == "A": init = g.octs(u * int(k[1:]))
                elif k in ("MS", "SF"): init = g.octs(u * (cap + r.choice([0, 0, 1, 4, 5])))
                else: init = g.octs(u * r.choice([0, g.minunits(m, f), cap + 3]))
                e = g.new(m, f, k, "with", init, cap, dirt=r.choice([0, 255]), key="n")
                if q == 0: e["fresh"] = 1
                grp.append(e)
                for j, x in enumerate(s):
                    x = dict(x); x["key"] = "k%d" % j
                    grp.append(x)
            out.append(grp)
        # rebuffered messages behave like the original
        if m["kind"] != "ci":
            for i in range(g.n(1)):
                b = g.msg(m, f, 1)
                s = [g.setv(r.choice(fs)) for _ in range(2)] if fs else []
                if m["kind"] == "text": s.append(dict(op="text", v=g.text(r.randrange(9))))
                s.append(dict(op="read"))
                grp = []
                for q, k in enumerate(["V", "SV", "SF", "ST"]):
                    e = g.load(m, f, k, b, 64)
                    if q == 0: e["fresh"] = 1
                    grp.append(e)
                    for j, x in enumerate(s):
                        x = dict(x); x["key"] = "k%d" % j
                        grp.append(x)
                out.append(grp)
    for m, f in big_types(g):
        for i in range(g.n(1 if m["kind"] == "text" else 12)):
            e = big_session(g, m, f, ["V"], [dict(op="read")], 2)
            s = [x for x in e[1:]]
            big = 420 if f == "u" else 460
            grp = []
            for q, k in enumerate(["V", "MV", "MS", "SV", "SF", "ST"]):
                x = g.new(m, f, k, "with", g.octs((4 if f == "u" else 1) * (big if k in ("MS", "SF") else r.choice([0, 4, big]))), big, dirt=r.choice([0, 255]), key="n")
                if q == 0: x["fresh"] = 1
                grp.append(x)
                for j, y in enumerate(s): y = dict(y); y["key"] = "k%d" % j; grp.append(y)
            out.append(grp)
    return out

# ------------------------------------------------------------------ C20
def C20(g):
    out = []
    for m, f in g.tf():
        if f == "b" and m["kind"] != "ci": continue
        for fd in g.fields(m, f):
            if fd["k"] not in STRUCT: continue
            for v in (g.allvalues(fd) if fd["k"] != "b" else g.values(fd, 2)):
                out.append([editable(g, m, f, False), g.setv(fd, v), dict(op="read")])
        for fd in m["fields"]:
            w = {"att": 8, "ctl": 8, "ton": 4, "csf": 4, "cty": 8, "alt": 8, "ksf": 4, "hint": 2, "port": 2, "dir": 2, "bank": 16, "och": 6}.get(fd["k"])
            if not w or fd["o"] < g.sh(m, f) or multi(m): continue
            codes = range(1 << w) if w <= 8 else sub(range(1 << w), g.n(12), g.r)
            for c in codes:
                b = g.fixed(m, f); putb(b, fd["o"] - g.sh(m, f), w, c)
                if fd["k"] == "bank": putb(b, 31, 1, g.r.randrange(2))
                out.append([g.parse(m, f, b)])
    return out

# ------------------------------------------------------------------ C21
def stream_key(b):
    """the stream a legal UMP message travels in; None: a message of one packet, of any stream"""
    t = b[0] >> 4
    if t == 3: return (3, b[0] & 15)
    if t == 5: return (5, b[0] & 15, b[2])
    if t == 13: return (13, b[0] & 15, b[1] & 63, b[2], b[3])
    if t == 15: return (15, b[0] & 3, b[1])
    return None
def C21(g):
    r = g.r
    out = []
    mults = [m for m in g.T if m["kind"] in ("sysex", "text")]
    rest = [m for m in g.T if m["kind"] not in ("sysex", "text", "ci") and m["size"]]
    def message(m):
        if m["kind"] == "sysex":
            k = r.random()
            if k < .3: return g.sx_ump(m, [r.randrange(g.cap(m) + 1) for _ in range(r.randrange(1, 6))], group=r.choice([0, 0, 5, r.randrange(16)]), sid=r.choice([0, 1, r.randrange(256)]), noise=r.random() < .4)
            n = r.choice([g.cap(m), 2 * g.cap(m), g.cap(m) + 1, 2 * g.cap(m) + 1, r.randrange(0, 5 * g.cap(m)), r.randrange(0, 5 * g.cap(m))])
            return g.sx(m, "u", n, payload=[0] * n if r.random() < .25 else None, group=r.choice([0, 0, 5, r.randrange(16)]), sid=r.choice([0, 1, r.randrange(256)]))
        if m["kind"] == "text":
            return g.text_msg(m, g.text(r.randrange(0, 5 * g.tcap(m))), group=r.choice([0, 5, r.randrange(16)]), chan=r.choice([-1, 0, 3, r.randrange(16)]))
        return g.fixed(m, "u")
    def order(ns, lose):
        seq = [k for k, n in enumerate(ns) for _ in range(n)]
        k = r.random()
        if k < .6: r.shuffle(seq)
        elif k < .8: # round robin
            left, seq = list(ns), []
            while any(left):
                for i in range(len(left)):
                    if left[i]: left[i] -= 1; seq.append(i)
        return [[k + 1, 1 if r.random() < lose else 0] for k in seq]
    def npk(m, b): return max(1, len(b) // (4 * {"sx7": 2, "sx8": 4, "flex": 4, "stream": 4}.get(m["fam"], len(b) // 4)))
    for i in range(g.n(700)):
        senders, used, ns = [], [], []
        pool = [r.choice(mults) for _ in range(2)] if r.random() < .4 else mults # few types: streams that differ in one part of their address
        for _ in range(r.randrange(1, 6)):
            if r.random() < .2: ms = [r.choice(rest) for _ in range(r.randrange(1, 4))]
            else: ms = [r.choice(pool)] * r.randrange(1, 4)
            msgs = [message(m) for m in ms]
            ks = {stream_key(b) for b in msgs} - {None}
            if any(ks & u for u in used): continue
            used.append(ks)
            senders.append(msgs)
            ns.append(sum(npk(m, b) for m, b in zip(ms, msgs)))
        if senders: out.append([dict(op="link", senders=senders, order=order(ns, r.choice([0, 0, 0, .1, .3])))])
    return out

# ------------------------------------------------------------------ C22
def C22(g):
    import mc
    r = g.r
    out = []
    types = [m for m in g.T if m["fam"] != "ci"]
    for fs in mc.built("thorough" if g.scale >= 8 else "quick"):
        for i in range(g.n(8)):
            out.append([dict(op="flife", feats=fs, group=r.randrange(16), text=g.text(r.choice([0, 1, 12, 13, 14, 28, 39, r.randrange(46)]))[:46], payload=[r.randrange(128) for _ in range(r.choice([0, 1, 6, 7, 13, 14, 39, 46, r.randrange(47)]))])])
        for m in types:
            for f in g.forms(m):
                for i in range(g.n(1)):
                    b = g.msg(m, f, 2)
                    if r.random() < .3: b = g.corrupt(m, f, b)
                    out.append([dict(op="fparse", feats=fs, form=f, buf=b)])
                    if f == "u": out.append([dict(op="fpkt", feats=fs, buf=b)])
                    if f == "u" and multi(m): # sequences of packet statuses
                        for i in range(g.n(2)):
                            k = r.choice([2, 3, 3, 4])
                            b = g.sx_ump(m, [r.randrange(g.cap(m) + 1) for _ in range(k)]) if m["kind"] == "sysex" else g.text_msg(m, g.text(g.tcap(m) * k - r.randrange(3), wide=False))
                            ps, o = m["size"] if m["kind"] == "sysex" else 16, {"sx7": 8, "sx8": 8, "flex": 8, "stream": 4}[m["fam"]]
                            j = r.randrange(k)
                            q = b[ps * j:ps * j + ps]
                            if r.random() < .8: putb(q, o, 4 if m["kind"] == "sysex" else 2, r.randrange(4))
                            else: i = r.randrange(32); q[i // 8] ^= 128 >> i % 8
                            out.append([dict(op="fparse", feats=fs, form=f, buf=b[:ps * j] + q + b[ps * j + ps:])])
                    if m["kind"] == "text": # text need not be UTF-8
                        t = g.text(r.randrange(1, 2 * g.tcap(m)))
                        i = r.randrange(len(t))
                        t[i:i + r.randrange(2)] = r.choice([[0xC3], [0xFF], [0xE2, 0x82], [0xED, 0xA0, 0x80], [0xC0, 0x80], [0xF4, 0x90, 0x80, 0x80], [0x80], [0xF0, 0x9F, 0x98], [0xE0, 0x9F, 0xBF], [0xF0, 0x8F, 0xBF, 0xBF], [0xC3, 0xA9], [0xF4, 0x8F, 0xBF, 0xBF]])
                        out.append([dict(op="fparse", feats=fs, form=f, buf=g.text_msg(m, t))])
        for i in range(g.n(25)):
            n = r.randrange(6)
            out.append([dict(op="fpkt", feats=fs, buf=g.octs(4 * n))]); out.append([dict(op="fparse", feats=fs, form="u", buf=g.octs(4 * n))])
            out.append([dict(op="fparse", feats=fs, form="b", buf=[r.randrange(128, 256)] + g.octs(r.randrange(4)))])
    return out

SUITES = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
