#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decides one property
   check.py --replay FILE                         runs a recorded counterexample again
   check.py --setup                               builds the harness and parses the specification"""
import sys, os, json, re, subprocess, time, shutil, argparse, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "bin"))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
VH = os.path.join(ROOT, "harness", "target", "debug", "vh")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = 8

# labels of the trace validator that decide each property
LABELS = {
    "C01": {"total", "pkt.total"},
    "C02": {"accept", "variant"},
    "C03": {"fields"},
    "C04": {"set.res", "set.get", "set.buf"},
    "C05": {"new.res", "new.data", "reparse"},
    "C06": {"data", "extent", "same"},
    "C07": {"packets", "pkvalid", "iter", "fbdsize"},
    "C08": {"payload", "paysize", "sxhdr", "sx.res", "sx.bounds"},
    "C09": {"payload", "paysize", "sxhdr", "sx.res", "sx.fail"},
    "C10": {"sx.canon", "reparse", "new.data"},
    "C11": {"iter", "pkt.iter"},
    "C12": {"text.res", "text.data", "text"},
    "C13": {"set.hdr", "text.hdr", "sx.hdr", "sxhdr", "reparse"},
    "C14": {"conv.res", "conv.data", "conv.var"},
    "C15": {"load", "rebuf.res", "rebuf.data", "rebuf.var", "same"},
    "C16": {"wrap", "variant", "same", "reparse", "packets"},
    "C17": {"pkt.total", "pkt.accept", "pkt.words", "pkt.get", "pkt.set", "pkt.var", "pkt.iter"},
    "C18": {"total", "accept", "fields", "data", "set.res", "set.get", "set.buf", "new.res", "new.data", "reparse", "rebuf.res", "rebuf.data", "rebuf.var"},
    "C19": {"same", "grown"},
    "C21": {"link", "link.total"},
    "C20": {"set.res", "set.get", "set.code", "fields", "total"},
    "C22": {"feat"},
}
ALWAYS = {"crash", "hang", "eval"}

class Broken(Exception): pass

def sh(cmd, timeout=800, env=None, cwd=None, out=None):
    e = dict(os.environ)
    if env: e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")

def build():
    import gen_glue
    gen_glue.main()
    r = sh(["bash", "-c", ". /opt/vp/env.sh; cd %s/harness && cargo build --offline -q -p vh 2>&1" % ROOT], timeout=1500)
    if r.returncode != 0: raise Broken("harness does not build:\n" + r.stdout[-4000:])

FEAT = os.path.join(ROOT, "harness_feat", "target")
def featbin(feats): return os.path.join(FEAT, "sel", "vf_" + "_".join(sorted(feats)))
def build_feats(sets):
    """one binary per selection of features; returns the selections for which the library does not compile"""
    os.makedirs(FEAT + "/sel", exist_ok=True)
    lanes = [sets[0::2], sets[1::2]]
    def lane(i):
        bad = []
        for fs in lanes[i]:
            r = sh(["bash", "-c", ". /opt/vp/env.sh; cd %s/harness_feat && CARGO_TARGET_DIR=%s/t%d cargo build --offline --no-default-features --features '%s' 2>&1" % (ROOT, FEAT, i, ",".join(fs))], timeout=600)
            b = featbin(fs)
            if os.path.exists(b): os.remove(b)
            if r.returncode == 0: shutil.copy("%s/t%d/debug/vf" % (FEAT, i), b)
            elif re.search(r"could not compile `(midi2|vf)`", r.stdout) and len(fs) < 10: bad.append((fs, r.stdout[-1500:]))
            else: raise Broken("feature harness does not build:\n" + r.stdout[-4000:])
        return bad
    with cf.ThreadPoolExecutor(2) as ex: return [x for y in ex.map(lane, range(2)) for x in y]

def tlc(module, cfg, meta, env=None, workers=1, heap="2g", timeout=800, extra=()):
    cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(extra) + [module]
    os.makedirs(meta, exist_ok=True)
    try: return sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    finally: shutil.rmtree(meta, ignore_errors=True)

def export(work):
    r = tlc("Export.tla", "Export.cfg", work + "/meta_export")
    m = re.search(r'<<"TYPES", "(.*)">>', r.stdout)
    if not m: raise Broken("catalogue export failed:\n" + r.stdout[-3000:])
    return json.loads(json.loads('"' + m.group(1) + '"'))

MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*\{(.*?)\}\s*>>')
def run_chunk(work, k, groups, keep=False):
    """executes the groups on the real code and validates the recorded events; returns (events, [(index, labels)], nevents)"""
    ops = [o for g in groups for o in g]
    sp, ep = "%s/s%d.json" % (work, k), "%s/e%d.json" % (work, k)
    with open(sp, "w") as f:
        for o in ops: f.write(json.dumps(o) + "\n")
    found = []
    limit = ["bash", "-c", 'ulimit -v 12000000; exec "$0" "$@"', featbin(ops[0]["feats"]) if "feats" in ops[0] else VH, sp, ep, "25"]
    r = sh(limit, timeout=700)
    if r.returncode == 4: raise Broken("harness error: " + r.stdout[-500:])
    if r.returncode == 5:
        m = re.search(r"HANG (\d+)", r.stdout)
        found.append((int(m.group(1)) - 1, {"hang"}))
    elif r.returncode != 0:
        pf = "%s/p%d" % (work, k)
        r = sh(limit, timeout=700, env={"VH_PROGRESS": pf})
        if r.returncode == 0: raise Broken("flaky harness exit")
        found.append((int(open(pf).read() or 0), {"crash"}))
    evs = []
    with open(ep) as f:
        for line in f:
            try: evs.append(json.loads(line))
            except ValueError: break
    if found: # only complete lines are validated
        with open(ep, "w") as f:
            for e in evs: f.write(json.dumps(e) + "\n")
    skip = 0
    tries = 0
    while evs[skip:]:
        tp = ep
        if skip:
            tp = ep + ".rest"
            with open(tp, "w") as f:
                for e in evs[skip:]: f.write(json.dumps(e) + "\n")
        r = tlc("Tr.tla", "Tr.cfg", "%s/meta%d_%d" % (work, k, tries), env={"TRACE": tp})
        ms = list(MIS.finditer(r.stdout.replace("\n", " ")))
        for m in ms: found.append((int(m.group(1)), set(re.findall(r'"([^"]+)"', m.group(2)))))
        if len(ms) != r.stdout.count('"MISMATCH"'): raise Broken("unreadable report:\n" + r.stdout[:2000])
        if "Model checking completed. No error" in r.stdout:
            m = re.findall(r"(\d+) states generated", r.stdout)
            if int(m[-1]) != len(evs) - skip + 1: raise Broken("trace validation stopped early")
            break
        ls = re.findall(r"/\\ l = (\d+)", r.stdout)
        if not ls or tries > 12: raise Broken("trace validation failed:\n" + r.stdout[-3000:])
        at = skip + int(ls[-1]) - 1       # the event the specification could not evaluate
        found.append((evs[at]["i"], {"eval"}))
        err = r.stdout[r.stdout.find("Error:"):][:600]
        with open("%s/evalerr.txt" % work, "a") as f: f.write(json.dumps(evs[at])[:3000] + "\n" + err + "\n")
        skip = at + 1
        while skip < len(evs) and evs[skip]["op"] not in ("load", "new", "parse", "pkt", "link", "fparse", "fpkt", "flife"): skip += 1
        tries += 1
    byi = {e["i"]: e for e in evs}
    res = []
    dedup = {}
    for i, ls in found: dedup.setdefault(i, set()).update(ls)
    starts = []
    n = 0
    for g in groups:
        starts.append((n, n + len(g), g)); n += len(g)
    for i, ls in sorted(dedup.items()):
        g = next((x for a, b, x in starts if a <= i < b), [])
        a = next((a for a, b, x in starts if a <= i < b), 0)
        res.append(dict(labels=ls, group=g, at=i - a, event=byi.get(i, dict(ops[i], i=i) if i < len(ops) else {})))
    if not keep:
        for p in (sp, ep, ep + ".rest"):
            if os.path.exists(p): os.remove(p)
    return len(evs), res, evs[: 3]

def run_groups(work, groups, chunk=2500):
    chunks, cur, n = [], [], 0
    for g in groups: # a chunk runs on one build
        if cur and g[0].get("feats") != cur[0][0].get("feats"): chunks.append(cur); cur, n = [], 0
        cur.append(g); n += sum(8 if o["op"] == "link" else 1 + sum(len(o[k]) for k in ("buf", "init", "items", "v") if isinstance(o.get(k), list)) // 250 for o in g)
        if n >= chunk: chunks.append(cur); cur, n = [], 0
    if cur: chunks.append(cur)
    total, found, samples = 0, [], []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for n, f, s in ex.map(lambda kc: run_chunk(work, *kc), enumerate(chunks)):
            total += n; found += f; samples += s[:1]
    return total, found, samples, len(chunks)

def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []
def matches(k, prop, f):
    if k["property"] != prop or k.get("status") == "fixed": return False
    m = k["match"]
    ev = f["event"]
    first = f["group"][0] if f["group"] else {}
    for key, v in m.items():
        if key == "labels":
            if not (f["hit"] <= set(v)): return False
        elif key == "start":
            if any(first.get(a) != b for a, b in v.items()): return False
        elif ev.get(key) != v: return False
    return True

def short(ev):
    return {k: v for k, v in ev.items() if k in ("op", "ty", "form", "kind", "api", "f", "v", "a", "b", "range", "hint", "items", "buf", "cap", "res", "fam", "bf", "what", "calls", "to", "lvl", "senders", "order", "del", "out", "d", "g", "feats", "text", "payload", "group")}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--show", type=int, default=0)
    ap.add_argument("--nomc", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.prop != "C22": build()
    tag = "%s_%s_%d" % (a.prop or "x", a.tier, os.getpid())
    work = os.path.join(WORK, tag)
    os.makedirs(work, exist_ok=True)
    try:
        if a.setup:
            types = export(work)
            print("catalogue: %d message types" % len(types))
            return 0
        if a.replay:
            r = json.load(open(a.replay))
            if "feats" in r["group"][0]:
                bad = build_feats([r["group"][0]["feats"]])
                for fs, o in bad: print("does not compile with", fs, o)
                if bad: return 1
            total, found, _, _ = run_groups(work, [r["group"]])
            want = LABELS[r["property"]] | ALWAYS
            bad = [f for f in found if f["labels"] & want]
            for f in bad: print(json.dumps(dict(labels=sorted(f["labels"] & want), event=short(f["event"]))))
            return 1 if bad else 0
        return decide(a, work, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(a, work, seed, t0):
    import gen, suites
    try: import mc
    except ImportError: mc = None
    prop = a.prop
    types = export(work)
    scale = a.scale or (8.0 if a.tier == "thorough" else 2.0)
    mcres = dict(states=0, transitions=0, groups=[], runs=[])
    if mc and not a.nomc: mcres = mc.run(prop, a.tier, work, seed, tlc, Broken)
    nobuild = []
    if prop == "C22":
        import mc
        nobuild = [dict(labels={"feat"}, group=[dict(op="flife", feats=fs, what="does not compile")], at=0, event=dict(op="flife", feats=fs, what=o)) for fs, o in build_feats(mc.built(a.tier))]
        mcres["groups"].sort(key=lambda g: g[0]["feats"])
    rounds = 1 if a.tier == "quick" else int(os.environ.get("VERIF_ROUNDS", "3"))
    total, found, samples, nchunks, ngroups = 0, [], [], 0, 0
    for rd in range(rounds):
        g = gen.Gen(types, "%s/%d/%d" % (prop, seed, rd), scale)
        groups = suites.SUITES[prop](g)
        if rd == 0: groups = mcres["groups"] + groups
        if nobuild:
            groups = [x for x in groups if x[0]["feats"] not in [y["group"][0]["feats"] for y in nobuild]]
            if rd == 0: found += nobuild
        n, f, s, c = run_groups(work, groups)
        total += n; found += f; samples += s[:2]; nchunks += c; ngroups += len(groups)
        if a.tier == "thorough" and (found or time.time() - t0 > 540): break
    want = LABELS[prop] | ALWAYS
    viol, kf, other = [], {}, {}
    for f in found:
        hit = f["labels"] & want
        f["hit"] = hit
        for x in f["labels"] - want: other[x] = other.get(x, 0) + 1
        if not hit: continue
        k = next((k for k in known() if matches(k, prop, f)), None)
        if k: kf.setdefault(k["id"], (k, []))[1].append(f)
        else: viol.append(f)
    for k in known():
        if k["property"] == prop and k.get("status") != "fixed" and k["id"] in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = os.path.join(WORK, "replay")
    os.makedirs(rep, exist_ok=True)
    kinds = {}
    for f in viol: kinds.setdefault((tuple(sorted(f["hit"])), f["event"].get("ty") or (f["group"][0].get("ty") if f["group"] else ""), f["event"].get("op")), f)
    for i, (k, f) in enumerate(list(kinds.items())[: max(a.show, 5)]):
        p = os.path.join(rep, "%s_%d.json" % (prop, i))
        json.dump(dict(property=prop, labels=sorted(f["hit"]), group=f["group"], at=f["at"], event=f["event"]), open(p, "w"))
        if a.show:
            print(k, f["at"], "START", json.dumps(short(f["group"][0]))[:400]); print("   ", json.dumps(short(f["event"]))[:900])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking",
              coverage=dict(states=mcres["states"] + total, transitions=mcres["transitions"] + total, traces_validated_against_impl=ngroups,
                            model_states=mcres["states"], model_transitions=mcres["transitions"], model_runs=mcres["runs"],
                            events_validated=total, behaviours_replayed_from_model=len(mcres["groups"]),
                            samples=[dict(group=[short(o) for o in groups[i]][:4]) for i in range(0, len(groups), max(1, len(groups) // 4))][:4] + [dict(event=short(s)) for s in samples[:3]]),
              violations=len(viol), known_findings=sorted(kf), other_labels=other, wall_s=round(time.time() - t0, 1),
              assumptions=["the catalogue in spec/Catalogue.tla is the MIDI 2.0 layout", "inputs outside the generated scripts and model bounds are not explored"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d behaviours, %d events, %d model states, %d violations (%d kinds) %.1fs" % (prop, a.tier, ngroups, total, mcres["states"], len(viol), len(kinds), time.time() - t0))
    if a.show: print("other labels", other)
    return 1 if viol else 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as e:
        print("ERROR:", e); sys.exit(2)
