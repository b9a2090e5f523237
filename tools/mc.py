"""Runs the exhaustive models of a property and collects the behaviours they export."""
import os, re, json, random, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLF = '{"cv1","cv2","sys","util","flex","stream","sx7","sx8","ci"}'
TXT = '{"flex::Lyrics", "stream::EndpointName", "stream::FunctionBlockName"}'
TXTALL = '{"flex::UnknownMetadataText", "flex::ProjectName", "flex::CompositionName", "flex::MidiClipName", "flex::CopyrightNotice", "flex::ComposerName", "flex::LyricistName", "flex::ArrangerName", "flex::PublisherName", "flex::PrimaryPerformerName", "flex::AccompanyingPerformerName", "flex::RecordingDate", "flex::RecordingLocation", "flex::UnknownPerformanceText", "flex::Lyrics", "flex::LyricsLanguage", "flex::Ruby", "flex::RubyLanguage", "stream::EndpointName", "stream::ProductInstanceId", "stream::FunctionBlockName"}'
MULTI = '{"sx7::Sysex7", "sx8::Sysex8", "flex::Lyrics", "flex::ProjectName", "stream::EndpointName", "stream::FunctionBlockName", "stream::ProductInstanceId"}'
LIFE = '{"cv1::NoteOn", "cv1::ProgramChange", "sys::TimingClock", "sys::SongPositionPointer", "sx7::Sysex7", "sx8::Sysex8", "cv2::NoteOn", "flex::SetTempo", "flex::Lyrics", "stream::EndpointInfo", "util::NoOp", "ci::DiscoveryQuery2"}'
LIFEALL = None # every message type
BYTES = '{"cv1::NoteOff", "cv1::NoteOn", "cv1::KeyPressure", "cv1::ControlChange", "cv1::ProgramChange", "cv1::ChannelPressure", "cv1::PitchBend", "sys::TuneRequest", "sys::TimeCode", "sys::SongSelect", "sys::SongPositionPointer", "sys::Reset", "sx7::Sysex7"}'
INV = dict(MC_Fields="StaysLegal Designated SetGet Commute", MC_Dispatch="Unique", MC_Seq="Acceptance Extent Contents Partition",
           MC_Sysex="IsList Legality Headers Canonical Algebra", MC_Text="IsText Legality Headers Minimal", MC_Iter="Refines SameAnswer Exhausted",
           MC_Life="Survives Legality Same There", MC_Link="InOrder Nothing Clean Whole1 Formed Alone Readable Same", MC_Feat="Gate PGate NoStd Export", MC_Packet="Top OnlyOne Holds Writes Complete")
VIEW = {"MC_Sysex", "MC_Text", "MC_Iter", "MC_Life"}
def fields(q, t, fam=ALLF, d=1): return ("MC_Fields", dict(K=q, Depth=1, Kinds=fam), dict(K=t, Depth=d, Kinds=fam))
def sysex(bufs, q=(2, 2), t=(4, 2)): return ("MC_Sysex", dict(Bufs=bufs, MaxLen=q[0], LayMax=q[1], Wide="FALSE"), dict(Bufs=bufs, MaxLen=t[0], LayMax=t[1], Wide="TRUE"))
def text(bufs): return ("MC_Text", dict(TypeNames=TXT, Bufs=bufs, MaxPk=2, Wide="FALSE"), dict(TypeNames=TXTALL, Bufs=bufs, MaxPk=4, Wide="FALSE"))
def itr(w): return ("MC_Iter", dict(MaxPk=2, MaxCalls=3, Whats=w), dict(MaxPk=4, MaxCalls=3, Whats=w))
def seq(): return ("MC_Seq", dict(MaxPk=4, TypeNames=MULTI), dict(MaxPk=8, TypeNames=MULTI))
def disp(): return ("MC_Dispatch", dict(Slow="FALSE", Noise="{1}"), dict(Slow="TRUE", Noise="{0, 1, 127, 255}"))
def life(t, s=3): return ("MC_Life", dict(TypeNames=t, Steps=s, SxLens="{0, 6, 13}"), dict(TypeNames="ALL", Steps=s + 1, SxLens="{0, 1, 5, 6, 7, 12, 13, 14, 26}"))
def pkt(): return ("MC_Packet", dict(Bodies='{"zero", "ser", "tail"}', Groups="{5}"), dict(Bodies='{"zero", "ser", "tail", "ones"}', Groups="0..15"))
CASTS = '{"sysex7", "sysex8", "text", "text2", "stream", "alike"}'
def link(): return ("MC_Link", dict(Casts='{"sysex7", "text", "stream"}', MaxLost=1), dict(Casts='{"sysex7", "sysex8", "text", "stream", "alike"}', MaxLost=2))
FEATURES = ["std", "channel-voice1", "channel-voice2", "ci", "flex-data", "sysex7", "sysex8", "system-common", "ump-stream", "utility"]
def tlaset(x): return "{%s}" % ", ".join(x)
def built(tier):
    """the selections of features that are built: for two features there is a selection with the one and without the other, and
    every feature is selected with std and without"""
    out = [list(FEATURES), ["channel-voice1", "sysex8", "sysex7", "ci", "std"], ["channel-voice2", "system-common", "sysex7", "std"], ["flex-data", "ump-stream", "sysex7", "ci"],
           ["channel-voice1", "channel-voice2", "flex-data", "utility"], ["sysex8", "system-common", "ump-stream", "utility"]]
    if tier == "thorough":
        out += [closed([f]) for f in FEATURES] + [closed([f for f in FEATURES if f != x]) for x in FEATURES if x != "sysex7"] + [[f for f in FEATURES if f not in ("ci", "sysex7")]]
    return [list(y) for y in sorted({tuple(sorted(x)) for x in out}, key=lambda x: (-len(x), x))]
def closed(x): return sorted(set(x) | ({"sysex7"} if "ci" in x else set()))
def feat():
    def c(tier, st): return dict(Built=tlaset(tlaset('"%s"' % f for f in x) for x in built(tier)), Statuses=st)
    return ("MC_Feat", c("quick", "{1, 145}"), c("thorough", "{0, 1, 6, 16, 22, 18, 33, 54, 65, 100, 128, 145, 177, 201, 224, 241, 243, 248, 255}"))
RUNS = {
    "C01": [disp()], "C02": [disp(), seq()], "C03": [fields(2, 6)], "C04": [fields(3, 4, d=2)], "C05": [fields(2, 3, d=2)],
    "C06": [seq()], "C07": [seq(), itr('{"pk"}')], "C08": [sysex('{"SV"}', (2, 2), (4, 3))], "C09": [sysex('{"ST", "SF"}')], "C10": [sysex('{"SV", "ST"}')],
    "C11": [itr('{"pl", "pk", "tx"}')], "C12": [text('{"SV", "ST"}')], "C13": [text('{"SV"}'), sysex('{"SV"}', (1, 2))],
    "C14": [life(BYTES)], "C15": [life(LIFE)], "C16": [life(LIFE), disp()], "C17": [pkt()], "C18": [fields(4, 9, '{"ci"}')], "C19": [life(LIFE)], "C20": [fields(40, 40)],
    "C21": [link(), ("MC_Link", dict(Casts=CASTS, MaxLost=0), dict(Casts=CASTS, MaxLost=1))],
    "C22": [feat()],
}
LIMIT = dict(quick=5000, thorough=60000)

def one(model, consts, work, k, seed, tlc, Broken, limit, heap, timeout):
    cfg = "%s/%s_%d.cfg" % (work, model, k)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n" % ("VIEW View\n" if model in VIEW else ""))
        for n, v in consts.items():
            if v == "ALL": f.write(" %s <- Names\n" % n)
            else: f.write(" %s = %s\n" % (n, v) if ".." not in str(v) else " %s <- %s\n" % (n, "GroupsAll"))
        f.write("INVARIANTS %s\n%s" % (INV[model], "PROPERTIES Grows\n" if model == "MC_Feat" and limit > 5000 else ""))
    r = tlc(model + ".tla", cfg, "%s/mcmeta%d" % (work, k), workers=4, heap=heap, timeout=timeout)
    out = r.stdout
    if "No error has been found" not in out:
        p = out.find("Error:")
        raise Broken("model %s: %s" % (model, out[p:p + 2500] if p >= 0 else out[-2500:]))
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct", out)
    lines = [x for x in out.splitlines() if x.startswith('"BEH')]
    rnd = random.Random("%s/%s/%d" % (model, seed, k))
    total = len(lines)
    if len(lines) > limit: lines = rnd.sample(sorted(lines), limit)
    groups = [json.loads(json.loads(x)[3:]) for x in sorted(lines)]
    return int(m[-1][1]), int(m[-1][0]), total, groups

def run(prop, tier, work, seed, tlc, Broken):
    res = dict(states=0, transitions=0, groups=[], runs=[])
    todo = RUNS.get(prop, [])
    thorough = tier == "thorough"
    lim = (LIMIT["thorough"] if thorough else 2500 if prop == "C21" else LIMIT["quick"]) // max(1, len(todo))
    with cf.ThreadPoolExecutor(2) as ex:
        fs = [(t, ex.submit(one, t[0], t[2] if thorough else t[1], work, i, seed, tlc, Broken, lim, "6g" if thorough else "3g", 600)) for i, t in enumerate(todo)]
        for t, f in fs:
            s, g, total, groups = f.result()
            res["states"] += s; res["transitions"] += g
            res["groups"] += groups
            res["runs"].append(dict(model=t[0], constants={k: str(v)[:200] for k, v in (t[2] if thorough else t[1]).items()}, invariants=INV[t[0]].split(), distinct_states=s, states_generated=g,
                                    behaviours_exported=total, behaviours_replayed=len(groups)))
    return res
