"""Building blocks of the script generators.  All layout knowledge comes from the catalogue exported by spec/Export.tla."""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table

def getb(b, o, w):
    v = 0
    for i in range(o, o + w): v = v * 2 + (b[i // 8] >> (7 - i % 8) & 1)
    return v
def putb(b, o, w, v):
    for i in range(w):
        k = o + w - 1 - i
        b[k // 8] = b[k // 8] & ~(1 << (7 - k % 8)) | ((v >> i & 1) << (7 - k % 8))

CTL = ["Modulation", "Breath", "Pitch7_25", "Volume", "Balance", "Pan", "Expression", "SoundVariation", "Timbre", "ReleaseTime", "AttackTime",
       "Brightness", "DecayTime", "VebratoRate", "VebratoDepth", "VebratoDelay", "Undefined", "ReverbSendLevel", "ChorusSendLevel"]
CTLC = [1, 2, 3, 7, 8, 10, 11] + list(range(70, 80)) + list(range(91, 96))
TON = ["NonStandard", "A", "B", "C", "D", "E", "F", "G"]
CTY = ["ClearChord", "Major", "Major6th", "Major7th", "Major9th", "Major11th", "Major13th", "Minor", "Minor6th", "Minor7th", "Minor9th",
       "Minor11th", "Minor13th", "Dominant", "Dominant9th", "Dominant11th", "Dominant13th", "Augmented", "Augmented7th", "Diminished", "Diminished7th",
       "HalfDiminished", "MajorMinor", "Pedal", "Power", "Suspended2nd", "Suspended4th"]
STRUCT = {"att", "ctl", "bank", "och", "ton", "csf", "cty", "alt", "ksf", "hint", "port", "dir", "b", "s7"}

class Gen:
    def __init__(self, types, seed, scale=1.0):
        self.T = types
        self.by = {m["ty"]: m for m in types}
        self.r = random.Random(seed)
        self.scale = scale
        self.tab = {m["ty"]: m for m in table.T}
        self.W = {m["ty"]: [f for f in m["fields"] if f["n"] not in ("destination",) and not (m["fam"] == "ci" and f["n"] == "device_id")] for m in types}
    def n(self, k): return max(1, int(round(k * self.scale)))
    def forms(self, m):
        return (["u"] if m["size"] else []) + (["b"] if m["bsize"] else [])
    def tf(self, pred=lambda m: True):
        return [(m, f) for m in self.T if pred(m) for f in self.forms(m)]
    def sh(self, m, form): return 8 if form == "b" and m["kind"] != "ci" else 0
    def fields(self, m, form): return [f for f in self.W[m["ty"]] if f["o"] >= self.sh(m, form)]
    def minlen(self, m, form): return m["bsize"] if form == "b" else m["size"]
    def minunits(self, m, form): return m["bsize"] if form == "b" else m["size"] // 4
    def toff(self, m): return 4 if m["fam"] == "flex" else 3 if m["ty"] == "stream::FunctionBlockName" else 2
    def tcap(self, m): return 16 - self.toff(m)
    # ------------------------------------------------------------ content
    def octs(self, n): 
        k = self.r.random()
        if k < .15: return [0] * n
        if k < .3: return [255] * n
        return [self.r.randrange(256) for _ in range(n)]
    def code(self, f, b, o):
        """puts a legal code of the coded field f at offset o"""
        r = self.r
        k = f["k"]
        if k == "att": putb(b, o, 8, r.randrange(4))
        elif k == "ctl": putb(b, o, 8, r.choice(CTLC))
        elif k == "ton": putb(b, o, 4, r.randrange(8))
        elif k == "csf": putb(b, o, 4, r.choice([0, 1, 2, 14, 15]))
        elif k == "cty": putb(b, o, 8, r.randrange(27))
        elif k == "alt": putb(b, o, 4, r.randrange(5))
        elif k == "port": putb(b, o, 2, r.randrange(3))
        elif k == "dir": putb(b, o, 2, r.randrange(1, 4))
    def hdr(self, m, form, p):
        for o, w, v in m["hdr"]:
            if o >= self.sh(m, form): putb(p, o - self.sh(m, form), w, v)
        return p
    def text(self, nbytes, wide=True):
        """a string without NUL of exactly nbytes UTF-8 bytes"""
        out = ""
        left = nbytes
        x = self.r.random()
        if x < .12: # white space, control characters and the byte order mark, at the ends and in between
            edge = [9, 10, 11, 12, 13, 27, 32, 32, 34, 37, 92, 123, 127] + [self.r.randrange(1, 32)]
            k = min(left, self.r.randrange(1, 4))
            t = [self.r.choice(edge) for _ in range(k)]
            if x < .04 and wide and left >= k + 3: return [0xEF, 0xBB, 0xBF] + self.text(left - k - 3, wide) + t
            if x < .08: return self.text(left - k, wide) + t
            return t + self.text(left - k, wide)
        if x < .16: return [self.r.randrange(1, 128) for _ in range(left)]
        while left:
            c = self.r.random()
            if wide and left >= 4 and c < .08: out += self.r.choice("\U00010000😀\U0010FFFF"); left -= 4
            elif wide and left >= 3 and c < .16: out += self.r.choice("€ࠀ퟿\uE000\uFFFF世"); left -= 3
            elif wide and left >= 2 and c < .24: out += self.r.choice("é߿\u0080ñ"); left -= 2
            else: out += chr(self.r.choice([1, 127] + list(range(32, 127)))); left -= 1
        return list(out.encode())
    def pl(self, m, n):
        k = self.r.random()
        top = 127 if m["fam"] == "sx7" else 255
        if k < .1: return [0 if k < .06 else top] * n
        if k < .28: return [self.r.choice([0, 0, 1, top]) for _ in range(n)]
        return [self.r.randrange(128 if m["fam"] == "sx7" else 256) for _ in range(n)]
    def ascending(self, m, n, base=1): return [(base + i) % (128 if m["fam"] == "sx7" else 256) for i in range(n)]
    # ----------------------------------------------------------- messages
    def sx_ump(self, m, sizes, payload=None, group=None, sid=None, noise=False):
        """a SysEx UMP message whose packets hold sizes[i] payload octets"""
        r = self.r
        group = r.randrange(16) if group is None else group
        sid = r.randrange(256) if sid is None else sid
        payload = list(payload) if payload is not None else self.pl(m, sum(sizes))
        out = []
        n = len(sizes)
        for i, s in enumerate(sizes):
            st = 0 if n == 1 else 1 if i == 0 else 3 if i == n - 1 else 2
            if m["fam"] == "sx7": p = [0x30 + group, st * 16 + s] + payload[:s] + [0] * (6 - s)
            else: p = [0x50 + group, st * 16 + s + 1, sid] + payload[:s] + [0] * (13 - s)
            if noise:
                for k in range(len(p) - ((6 if m["fam"] == "sx7" else 13) - s), len(p)): p[k] = r.randrange(256)
            payload = payload[s:]
            out += p
        return out
    def cap(self, m): return 6 if m["fam"] == "sx7" else 13
    def full(self, m, n):
        c = self.cap(m)
        return [c] * (n // c) + ([n % c] if n % c or n == 0 else [])
    def sx(self, m, form, n, **kw):
        """canonical message with n payload octets"""
        if form == "b": return [0xF0] + (list(kw["payload"]) if kw.get("payload") is not None else self.pl(m, n)) + [0xF7]
        return self.sx_ump(m, self.full(m, n), **kw)
    def text_msg(self, m, tx, npk=None, group=None, chan=None, fb=None, noise=False):
        """text message with the bytes tx, in npk packets (default: as few as possible)"""
        r = self.r
        c = self.tcap(m)
        npk = max(1, -(-len(tx) // c)) if npk is None else npk
        h = self.octs(16) if noise else [0] * 16
        self.hdr(m, "u", h)
        if m["fam"] == "flex":
            putb(h, 4, 4, r.randrange(16) if group is None else group)
            chan = r.choice([-1, -1] + list(range(16))) if chan is None else chan
            if chan < 0: putb(h, 10, 2, 1); putb(h, 12, 4, 0)
            else: putb(h, 10, 6, chan)
        elif m["ty"] == "stream::FunctionBlockName": h[2] = r.randrange(256) if fb is None else fb
        out = []
        for i in range(npk):
            p = h[:self.toff(m)] + (tx[i * c:(i + 1) * c] + [0] * c)[:c]
            st = 0 if npk == 1 else 1 if i == 0 else 3 if i == npk - 1 else 2
            putb(p, 8 if m["fam"] == "flex" else 4, 2, st)
            out += p
        return out
    def fixed(self, m, form, noise=None):
        """a legal fixed size message with arbitrary content (noise: initial octets)"""
        b = list(noise) if noise is not None else self.octs(self.minlen(m, form))
        self.hdr(m, form, b)
        if m["kind"] == "fixnc" and getb(b, 10, 2) == 0: putb(b, 10, 2, self.r.randrange(1, 4))
        if m["kind"] == "ci":
            for i in range(1, len(b) - 1): b[i] &= 0x7F
            self.hdr(m, form, b)
            b[-1] = 0xF7
        for f in m["fields"]:
            if f["o"] >= self.sh(m, form): self.code(f, b, f["o"] - self.sh(m, form))
        return b
    def msg(self, m, form, big=3, noise=False):
        """any legal message"""
        r = self.r
        if m["kind"] == "sysex":
            if form == "b": return self.sx(m, "b", r.choice([0, 1, 2, 5, 6, 7, 13, 20]))
            k = r.randrange(1, big + 1)
            if r.random() < .5: return self.sx_ump(m, [r.randrange(self.cap(m) + 1) for _ in range(k)], noise=noise)
            return self.sx(m, "u", r.randrange(0, self.cap(m) * big + 1))
        if m["kind"] == "text":
            c = self.tcap(m)
            return self.text_msg(m, self.text(r.choice([0, 1, c - 1, c, c + 1, 2 * c - 1, 2 * c, r.randrange(c * big + 1)])))
        return self.fixed(m, form)
    def wild(self, m, form, maxu=13):
        """an arbitrary slice, biased towards nearly legal messages"""
        r = self.r
        k = r.random()
        if form == "u":
            if m["kind"] in ("sysex", "text"):
                ps = m["size"] if m["kind"] == "sysex" else 16
                b = []
                for _ in range(r.randrange(0, 4)):
                    p = self.octs(ps)
                    if r.random() < .93: self.hdr(m, "u", p)
                    if r.random() < .6: p[0] = p[0] & 0xF0
                    if m["kind"] == "sysex":
                        p[1] = r.choice([0, 0, 16, 32, 32, 48, 48, r.randrange(256) & 0xF0]) + r.choice([0, 1, 6, 7, 14, 15, r.randrange(16)])
                        if m["fam"] == "sx8": p[2] = r.choice([p[2], 0, 0])
                    elif m["fam"] == "flex": putb(p, 8, 8, r.choice([0x10, 0x50, 0x90, 0xD0, 0xD0, 0, 0xC0, r.randrange(256)]))
                    else: putb(p, 4, 2, r.randrange(4)); p[2] = r.choice([0, p[2]])
                    if r.random() < .7:
                        for j in range(4, ps): p[j] = r.choice([p[j] & 0x7F, 0, 0xC3, 0xA9])
                    b += p
                if r.random() < .4: b += self.octs(4 * r.randrange(0, 4))
                if r.random() < .3: b = b[:4 * r.randrange(0, len(b) // 4 + 1)]
                return b
            n = r.choice([0, 1, 2, 3, 4, 5, 8, m["size"] // 4, m["size"] // 4, m["size"] // 4])
            b = self.octs(4 * n)
            if n and r.random() < .9:
                z = b + [0] * 16; self.hdr(m, form, z); b = z[:len(b)]
                if m["kind"] == "fixnc" and r.random() < .7: putb(b, 10, 2, 1)
            if m["fam"] != "flex" and n == m["size"] // 4 and r.random() < .5: b = self.fixed(m, form)
            return b
        if m["kind"] == "sysex":
            n = r.randrange(0, 12)
            b = [r.choice([0, 1, 127, 128, 255, 0xF7, 0xF0, r.randrange(256)]) if r.random() < .25 else r.randrange(128) for _ in range(n)]
            if r.random() < .8: b = [0xF0] + b
            if r.random() < .7: b = b + [0xF7]
            if r.random() < .3: b += self.octs(r.randrange(4))
            return b
        n = r.choice([0, 1, 2, 3, 4, 7, m["bsize"] - 1, m["bsize"], m["bsize"], m["bsize"] + 1])
        b = self.octs(n)
        if n:
            z = b + [0] * 40; self.hdr(m, form, z); b = z[:n]
        if m["kind"] == "ci" and r.random() < .8:
            b = self.fixed(m, form)
            for _ in range(r.randrange(3)): b[r.randrange(len(b))] = r.choice([0, 127, 128, 255, 0xF0, 0xF7])
            if r.random() < .2: b = b[:r.randrange(len(b))]
            if r.random() < .2: b += self.octs(2)
        return b
    def corrupt(self, m, form, b):
        """one header-ish corruption of the legal message b"""
        r = self.r
        b = list(b)
        k = r.random()
        ps = m["size"] if m["kind"] == "sysex" else 16
        if form == "u" and m["kind"] in ("sysex", "text") and len(b) > ps and k < .5:
            i = r.randrange(len(b) // ps) * ps
            x = r.randrange(5)
            if x == 0: b[i] ^= 1 << r.randrange(8)
            elif x == 1: b[i + 1] ^= 1 << r.randrange(4, 8)
            elif x == 2: b[i + 2] ^= 1 << r.randrange(8)
            elif x == 3: b[i + 3] ^= 1 << r.randrange(8)
            else: b[i + 1] = b[i + 1] & 0xF0 | r.choice([0, 7, 6, 14, 15])
        elif k < .8:
            i = r.randrange(min(32, 8 * len(b)))
            b[i // 8] ^= 1 << (7 - i % 8)
        elif k < .9: b[r.randrange(len(b))] = r.choice([0, 255, 128, 0xC3, 0x7F, 0xF7])
        else: u = 4 if form == "u" else 1; b = b[:u * r.randrange(len(b) // u)]
        return b
    # ------------------------------------------------------------- values
    def values(self, f, k=4):
        """values of the type of field f: the boundary ones first"""
        r = self.r
        kd, w = f["k"], f["w"]
        def ints(w): return [0, (1 << w) - 1, 1, 1 << (w - 1), (0x5555555 & ((1 << w) - 1)), (0x2AAAAAA & ((1 << w) - 1)), r.randrange(1 << w), r.randrange(1 << w)]
        if kd in ("u", "fbn", "sid", "grp"): v = ints(w)
        elif kd == "b": v = [1, 0]
        elif kd == "q": v = [[0] * 4, [255] * 4, [0x80, 0, 0, 1], [0, 0x80, 1, 0]] + [[r.randrange(256) for _ in range(4)] for _ in range(4)]
        elif kd == "l14": v = ints(14) + [127, 128]
        elif kd == "l28": v = ints(28) + [127, 128, 16383, 16384, 2097151, 2097152]
        elif kd == "s7": v = [[0] * w, [127] * w, list(range(1, w + 1))] + [[r.randrange(128) for _ in range(w)] for _ in range(4)]
        elif kd == "att": v = [["None", 0]] + [[x, y] for x in ("ManufacturerSpecific", "ProfileSpecific", "Pitch7_9") for y in (0, 65535, r.randrange(65536))]
        elif kd == "ctl": v = [[n, 0] + [r.randrange(256) for _ in range(4)] for n in CTL] + \
                [["SoundController", i] + [r.randrange(256) for _ in range(4)] for i in range(1, 11)] + [["EffectDepth", i] + [r.randrange(256) for _ in range(4)] for i in range(1, 6)]
        elif kd == "bank": v = [-1, 0, 16383, 127, 128, r.randrange(16384), r.randrange(16384)]
        elif kd == "och": v = [-1, 0, 15, r.randrange(16), 7]
        elif kd == "ton": v = list(TON)
        elif kd == "csf": v = ["DoubleSharp", "Sharp", "Natural", "Flat", "DoubleFlat"]
        elif kd == "cty": v = list(CTY)
        elif kd == "alt": v = [["None", 0]] + [[n, d] for n in ("Add", "Subtract", "Raise", "Lower") for d in (0, 15, r.randrange(16))]
        elif kd == "ksf": v = [["Sharps", i] for i in range(8)] + [["Flats", i] for i in range(8)] + [["NonStandard", 0]]
        elif kd == "hint": v = ["Undeclared", "Receiver", "Sender", "SenderReciever"]
        elif kd == "port": v = ["None", "DontRestrictBandwidth", "RestrictBandwidth"]
        elif kd == "dir": v = ["Input", "Output", "Bidirectional"]
        else: raise Exception(kd)
        if k is None or len(v) <= k: return v
        return v[:k // 2] + r.sample(v[k // 2:], k - k // 2)
    def allvalues(self, f):
        """every value of a small field; of a wider one those around powers of two, and more"""
        r, kd, w = self.r, f["k"], f["w"]
        def spec(w): return sorted({x for k in range(w + 1) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, (1 << w) - (1 << k), (1 << w) - (1 << k) - 1) if 0 <= x < 1 << w} | {r.randrange(1 << w) for _ in range(8)})
        if kd in ("u", "fbn", "sid", "grp"): return list(range(1 << w)) if w <= 8 else spec(w)
        if kd in ("l14", "l28"): return spec(14 if kd == "l14" else 28) + [a * 128 + b for a in (0, 1, 120, 121, 127) for b in (0, 1, 2, 127)]
        if kd == "bank": return [-1] + spec(14)
        if kd == "och": return list(range(-1, 16))
        if kd == "dev": return [["Channel", i] for i in range(16)] + [["Group", 0], ["FunctionBlock", 0]]
        if kd == "q": return [[x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255] for x in spec(32)]
        if kd == "att": return [["None", 0]] + [[n, x] for n in ("ManufacturerSpecific", "ProfileSpecific", "Pitch7_9") for x in r.sample(spec(16), 30)]
        if kd == "alt": return [["None", 0]] + [[n, d] for n in ("Add", "Subtract", "Raise", "Lower") for d in range(16)]
        return self.values(f, None)
    def columns(self, m, form):
        """bit columns (offset, width, values) that may be filled independently; together they cover all legal codes of the fields"""
        out = []
        for f in m["fields"]:
            o = f["o"] - self.sh(m, form)
            kd, w = f["k"], f["w"]
            if o < 0 or m["fam"] == "ci" and f["n"] in ("source", "destination", "device_id") and kd not in ("s7", "l28", "dev"): continue
            if kd in ("u", "b", "grp", "fbn", "sid"):
                if w <= 8: out.append((o, w, list(range(1 << w))))
                else: out.append((o, w, [x for x in self.allvalues(f)]))
            elif kd in ("l14", "bank"): out += [(o + 1, 7, list(range(128))), (o + 9, 7, list(range(128)))]
            elif kd == "l28": out += [(o + 8 * i + 1, 7, list(range(128))) for i in range(4)]
            elif kd == "s7": out += [(o + 8 * i + 1, 7, list(range(128))) for i in range(w)]
            elif kd == "q": out += [(o + 8 * i, 8, list(range(256))) for i in range(4)]
            elif kd == "att": out += [(o, 8, list(range(4))), (o + 24, 16, [self.r.randrange(65536) for _ in range(60)] + [0, 1, 255, 256, 32768, 65535])]
            elif kd == "ctl": out += [(o, 8, CTLC)] + [(o + 8 * i, 8, list(range(256))) for i in range(1, 5)]
            elif kd == "ton": out.append((o, 4, list(range(8))))
            elif kd == "csf": out.append((o, 4, [0, 1, 2, 14, 15]))
            elif kd == "cty": out.append((o, 8, list(range(27))))
            elif kd == "alt": out.append((o, 8, list(range(80))))
            elif kd == "ksf": out.append((o, 4, list(range(16))))
            elif kd == "hint": out.append((o, 2, list(range(4))))
            elif kd == "port": out.append((o, 2, list(range(3))))
            elif kd == "dir": out.append((o, 2, [1, 2, 3]))
            elif kd == "och": out.append((o, 6, list(range(32))))
            elif kd == "dev": out.append((o + 1, 7, list(range(16)) + [126, 127]))
        return out
    def sweep(self, m, form):
        """legal messages of a fixed size among which every small field takes every value, whatever the others hold"""
        cols = [(o, w, self.r.sample(v, len(v))) for o, w, v in self.columns(m, form)]
        for i in range(max([len(v) for _, _, v in cols] or [0])):
            b = self.fixed(m, form)
            for o, w, v in cols: putb(b, o, w, v[i % len(v)])
            yield b
    def huge_lens(self, m, far=True):
        """lengths around 256 packets; with far also around 65536 octets"""
        c = self.tcap(m) if m["kind"] == "text" else self.cap(m)
        return [c * 255, c * 255 + 1, c * 256 - 1, c * 256, c * 256 + 1, c * 257, 1023, 1024, 1025, 4095, 4096, 4097] + ([65534, 65535, 65536, 65537, 66000] * 2 if far else [])
    def value(self, f): return self.r.choice(self.values(f, None))
    def related(self, f, v):
        """values close to v: subsets and supersets of its bits, neighbours, one half changed"""
        r, kd, w = self.r, f["k"], {"l14": 14, "l28": 28, "bank": 14, "och": 4}.get(f["k"], f["w"])
        if kd in ("u", "fbn", "sid", "grp", "l14", "l28", "bank", "och"):
            if v < 0: return [0, r.randrange(1 << w), -1]
            x, top = r.randrange(1 << w), (1 << w) - 1
            out = [v & x, v | x, v ^ 1, v ^ (1 << (w - 1)), (v + 1) & top, (v - 1) & top, v ^ (x & (top >> (w // 2))), v ^ (x & (top << (w - w // 2)) & top), v & (v - 1)]
            return out + ([-1] if kd in ("bank", "och") else [])
        if kd in ("q", "s7"):
            m = 127 if kd == "s7" else 255
            x = [r.randrange(m + 1) for _ in v]
            one = list(v); one[r.randrange(len(v))] = r.randrange(m + 1)
            return [[a & b for a, b in zip(v, x)], [a | b for a, b in zip(v, x)], one, [a ^ (m & 1) for a in v]]
        if kd == "att": return [[v[0], v[1] & r.randrange(65536)], ["Pitch7_9", v[1]], ["None", 0], ["ManufacturerSpecific", v[1]], ["ProfileSpecific", v[1] ^ 1]]
        if kd == "ctl": return [v[:2] + [a & r.randrange(256) for a in v[2:]], self.r.choice(self.values(f, None))[:2] + v[2:]]
        if kd == "alt": return [[self.r.choice(["Add", "Subtract", "Raise", "Lower"]), v[1] & r.randrange(16)], ["None", 0]]
        return self.values(f, 3)
    # ------------------------------------------------------------- scripts
    def load(self, m, form, kind, buf, cap=None, **kw):
        u = 4 if form == "u" else 1
        if kind in ("SF", "S"): cap = len(buf) // u
        elif kind[0] == "A": cap = int(kind[1:])
        elif kind == "ST": cap = max(cap or 0, len(buf) // u)
        d = dict(op="load", ty=m if isinstance(m, str) else m["ty"], form=form, kind=kind, buf=list(buf), cap=cap or 0)
        d.update(kw)
        return d
    def new(self, m, form, kind, api="with", init=(), cap=None, **kw):
        u = 4 if form == "u" else 1
        init = list(init)
        if kind[0] == "A": cap = int(kind[1:])
        elif kind == "ST" and api == "with": cap = max(cap or 0, len(init) // u)
        elif kind == "MS" or (kind == "SF" and api == "with"): cap = len(init) // u
        d = dict(op="new", ty=m["ty"], form=form, kind=kind, api=api, init=init, cap=cap or 0)
        d.update(kw)
        return d
    def parse(self, ty, form, buf, **kw):
        d = dict(op="parse", ty=ty if isinstance(ty, str) else ty["ty"], form=form, buf=list(buf))
        d.update(kw)
        return d
    def setv(self, f, v=None, **kw):
        d = dict(op="set", f=f["n"], v=self.value(f) if v is None else v)
        d.update(kw)
        return d
    def aggs(self, m, form):
        """aggregates that contain m"""
        a = []
        if m["fam"] in ("cv1", "cv2", "sys", "util", "flex", "stream"): a.append("agg:" + m["fam"])
        if m["fam"] != "ci": a.append("agg:Ump" if form == "u" else "agg:Bytes")
        return a
    def arrays(self, m, form):
        kd = m["kind"]
        mn = self.minunits(m, form) if m["ty"] != "stream::FunctionBlockDiscovery" else 4
        if kd in ("fixed", "fixnc"): return [mn + 3] if form == "u" else [6]
        if kd == "text": return [5, 8, 12, 20]
        if kd == "sysex": return ([3, 4, 8, 16] if m["fam"] == "sx7" else [5, 8, 12, 20]) if form == "u" else [4, 8, 16, 32]
        return [mn + 4]
    def big_array(self, m, form):
        """a larger array buffer, for SysEx only"""
        return (68 if form == "u" else 210) if m["kind"] == "sysex" else None
    def big_lens(self, m, k):
        """payload / text lengths of many packets, around packet boundaries and powers of two"""
        c = self.tcap(m) if m["kind"] == "text" else self.cap(m)
        v = [c * i + d for i in (4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33) for d in (-1, 0, 1)] + [63, 64, 65, 127, 128, 129, 200, 220, 221, 255, 256, 257, 300]
        return self.r.sample(v, min(k, len(v)))
    def small_arrays(self, m, form):
        kd = m["kind"]
        mn = self.minunits(m, form) if m["ty"] != "stream::FunctionBlockDiscovery" else 4
        if m["ty"] == "stream::FunctionBlockDiscovery": return []
        return {"fixed": [mn - 1], "fixnc": [mn - 1], "text": [3], "sysex": [mn - 1], "ci": [mn - 1]}[kd]
