#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--tier quick|thorough]
                          check.py --replay out/C01/viol-1.json

1. TLC checks the design models of the property (spec/MC*.tla) exhaustively
   within their stated bounds.
2. Drivers run the real library from /repo and record histories; TLC validates
   every one of them against the specification (spec/Trace*.tla).
Exit 0: everything conforms.  Exit 1: VIOLATION line.  Exit 3: machinery error.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC, HARN = os.path.join(HERE, "spec"), os.path.join(HERE, "harness")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from registry import REG

NPROC = 8


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)


def tlc(module, cfg, work, env=None, extra=(), timeout=850, workers=NPROC):
    meta = os.path.join(work, "meta-%s-%d" % (module, os.getpid()))
    e = dict(os.environ)
    jtmp = meta + "-tmp"                       # TLC unpacks its modules there
    os.makedirs(jtmp, exist_ok=True)
    e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + jtmp
    e.update(env or {})
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg] + list(extra) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(jtmp, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", p.stdout)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return p.returncode, p.stdout, gen, dist


def run_models(prop, models, tier, work, res):
    """design models; a model that fails is an error of the machinery, as it
    does not depend on the code"""
    for name, cfgs in models:
        for c in cfgs.get(tier, cfgs["quick"]):
            t0 = time.time()
            rc, out, gen, dist = tlc(name, c, work)
            if rc != 0 or "No error has been found" not in out:
                print(out[-3000:])
                die("design model %s/%s does not hold" % (name, c))
            if dist < 2:
                die("design model %s/%s explored nothing" % (name, c))
            res["models"].append(dict(model=name, config=c, states=dist, transitions=gen,
                                      wall_s=round(time.time() - t0, 1)))


def programs(prop, d, tier, seed, work, res, scale=1.0):
    """programs to be performed: TLC writes every sequence of operations of a design model"""
    name, cfgs = d["gen"]
    t0, cfg = time.time(), cfgs.get(tier, cfgs["quick"])
    extra = []
    if isinstance(cfg, tuple):                      # sampled: (configuration, behaviours, depth)
        cfg, num, depth = cfg
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    rc, out, gen, dist = tlc(name, cfg, work, extra=extra, workers=1 if extra else NPROC, timeout=3000 if tier == "thorough" else 400)
    if extra:
        m = re.findall(r"([\d,]+) states (?:checked|generated)", out)
        gen = dist = int(m[-1].replace(",", "")) if m else 0
    setup, progs = None, set()
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"CZSETUP '): setup = json.loads(line)[8:]
        if line.startswith('"CZPROG '): progs.add(json.loads(line)[7:])
    if setup is None or not progs or "Error:" in out or "is violated" in out:
        print(out[-3000:])
        die("design model %s/%s does not hold" % (name, cfg))
    progs = sorted(progs)
    random.Random(seed).shuffle(progs)
    n = min(len(progs), d["n"].get(tier, d["n"]["quick"]))
    progs = progs[:max(1, int(n * scale))]
    path = os.path.join(work, "programs.ndjson")
    with open(path, "w") as f:
        f.write("\n".join([setup] + progs) + "\n")
    res["models"].append(dict(model=name, config=cfg, states=dist, transitions=gen, programs=len(progs), wall_s=round(time.time() - t0, 1)))
    os.environ["CZ_PROGRAMS"] = path
    return len(progs)


def run_driver(prop, d, tier, seed, work, start=0, count=None):
    n = count or d["n"].get(tier, d["n"]["quick"])
    shards = max(1, min(NPROC, n))
    per = (n + shards - 1) // shards
    procs, files = [], []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_TIER=tier)
    for k in range(shards):
        a = start + k * per
        c = min(per, start + n - a)
        if c <= 0:
            break
        f = os.path.join(work, "%s-%d.ndjson" % (d["driver"], k))
        files.append(f)
        log = open(f + ".log", "w")
        procs.append((subprocess.Popen([PY, os.path.join(HARN, "shard.py"), d["driver"], prop, str(seed), str(a), str(c),
                                        tier, f], env=env, stdout=log, stderr=log, cwd=work), f))
    lim = time.time() + (500 if tier == "quick" else 3000)
    for p, f in procs:
        why = None
        try:
            p.wait(max(1, lim - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            why = "driver-never-returned"          # stuck inside one library call
        if p.returncode != 0:
            log = open(f + ".log").read()
            if why is None and ("ModuleNotFoundError: No module named 'czt'" in log or not os.path.exists(f)):
                print(log[-3000:])
                die("driver %s failed (rc %s)" % (d["driver"], p.returncode))
            print(log[-1500:])
            lines = open(f).read().split("\n")
            done = [x for x in lines[:-1]]
            rec = dict(events=[dict(ev="crash", fn="crash", exc=why or "driver-ended-%s" % p.returncode)],
                       src=dict(driver=d["driver"], prop=prop, seed=seed, index=start + len(done)))
            with open(f, "w") as fh:
                fh.write("\n".join(done + [json.dumps(rec)]) + "\n")
    return files


VIOL = re.compile(r'^"?CZVIOL (\d+) (\d+) (\S+) (.*?)"?$')


def validate(module, recs, work, res, label):
    """TLC checks recorded histories against the specification -> violations"""
    left, found = list(range(len(recs))), {}
    beyond = [dict(event=1, ev="history", clauses=["beyond-the-specification"])]
    for _ in range(3):
        try:
            v = validate1(module, [recs[k] for k in left], work, res, label)
            found.update({left[k]: x for k, x in v.items()})
            return found
        except TLCFailed as e:
            # a history with values the specification cannot even evaluate
            print("  TLC: " + " ".join(str(e).split("Reason:")[-1].split())[:200])
            if len(left) == 1:
                e.at = 0
            if e.at is None:
                h = len(left) // 2              # it is not said which
                for part in (left[:h], left[h:]):
                    v = validate(module, [recs[k] for k in part], work, res, label)
                    found.update({part[k]: x for k, x in v.items()})
                    if beyond in v.values():
                        break
                return found
            found[left.pop(e.at)] = beyond
            if not left:
                return found
    return found


class TLCFailed(Exception):
    at = None


def validate1(module, recs, work, res, label):
    path = os.path.join(work, label + ".ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps({k: v for k, v in r.items() if k != "src"}) + "\n")
    rc, out, gen, dist = tlc(module, module + ".cfg", work, env=dict(CZ_TRACE=path))
    os.remove(path)
    want = sum(len(r["events"]) + 1 for r in recs)
    if rc != 0 or "No error has been found" not in out or gen != want:
        if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemoryError" in out or "Error: Cannot find" in out:
            print(out[-4000:])
            die("TLC could not run %s" % module)
        err = TLCFailed("TLC consumed %d of %d events of %s\n%s" % (gen, want, label, out[-2500:]))
        at = re.findall(r"^/\\ tr = (\d+)$", out, re.M)
        if at and 0 < int(at[-1]) <= len(recs):
            err.at = int(at[-1]) - 1
        raise err
    viol = {}
    for line in out.splitlines():
        m = VIOL.match(line.strip())
        if m:
            t = int(m.group(1)) - 1
            cl = re.findall(r'\w[\w \-:./]*', m.group(4).replace('\\"', '"').replace('"', '')) or ["unnamed"]
            viol.setdefault(t, []).append(dict(event=int(m.group(2)), ev=m.group(3), clauses=[c.strip() for c in cl]))
    if out.count("CZVIOL") != sum(len(v) for v in viol.values()):
        die("could not parse a verdict of TLC")
    res["tlc_states"] += dist
    res["tlc_transitions"] += gen
    return viol


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    return [k for k in json.load(open(p))["known"] if k["property"] == prop] if os.path.exists(p) else []


def is_known(known, rec, v):
    for k in known:
        if rec.get("key") == k["key"] and set(v["clauses"]) <= set(k["clauses"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--fresh", action="store_true", help="with --replay: run the driver again on the current code")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nomodels", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(a)
    prop, tier = a.prop, a.tier
    if prop not in REG:
        die("unknown property " + str(prop))
    R = REG[prop]
    t0 = time.time()
    work = os.path.join(HERE, "out", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    res = dict(models=[], tlc_states=0, tlc_transitions=0)
    known = load_known(prop)
    hit_known, viols, ntr, nev, kinds, samples, distinct = {}, [], 0, 0, {}, [], set()
    if not a.nomodels:
        run_models(prop, R.get("models", []), tier, work, res)
    for d in R["drivers"]:
        n = d["n"].get(tier, d["n"]["quick"])
        if not n:
            continue
        n = programs(prop, d, tier, seed, work, res, a.scale) if "gen" in d else max(1, int(n * a.scale))
        batch = d.get("batch", 6000)
        done = 0
        while done < n:
            c = min(batch, n - done)
            files = run_driver(prop, d, tier, seed, work, start=done, count=c)
            recs = []
            for f in files:
                with open(f) as fh:
                    recs += [json.loads(x) for x in fh]
                os.remove(f); os.remove(f + ".log")
            if not recs:
                die("driver %s recorded nothing" % d["driver"])
            bad = validate(d["spec"], recs, work, res, d["driver"])
            ntr += len(recs)
            for r in recs:
                nev += len(r["events"])
                sig = []
                for e in r["events"]:
                    k = e.get("ev") or e.get("fn")
                    kinds[k] = kinds.get(k, 0) + 1
                    sig.append(k)
                distinct.add(hash(json.dumps(r["events"], sort_keys=True)))
            if len(samples) < 3:
                samples.append(json.loads(json.dumps(recs[0]))if len(json.dumps(recs[0])) < 6000 else
                               dict(events=recs[0]["events"][:4], note="first events of a longer history"))
            for t, vs in sorted(bad.items()):
                for v in vs:
                    k = is_known(known, recs[t], v)
                    if k:
                        hit_known[k["id"]] = k
                        continue
                    viols.append((d, recs[t], v))
            done += c
            if viols or time.time() - t0 > (700 if tier == "quick" else 3000):
                break
    missing = [k for k in R.get("must", []) if not kinds.get(k)]
    if missing and not viols:
        die("the drivers never exercised %s" % missing)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=res["tlc_states"] + sum(m["states"] for m in res["models"]),
                            transitions=res["tlc_transitions"] + sum(m["transitions"] for m in res["models"]),
                            traces_validated_against_impl=ntr, distinct_traces=len(distinct),
                            events_validated=nev, events_by_kind=kinds, design_models=res["models"],
                            trace_specs=sorted({d["spec"] for d in R["drivers"]}), samples=samples),
              assumptions=R.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        byc = {}
        for d, r, v in viols:
            byc.setdefault(tuple(sorted(v["clauses"])), (d, r, v))
        for i, (cl, (d, r, v)) in enumerate(sorted(byc.items())[:10]):
            path = os.path.join(work, "viol-%d.json" % (i + 1))
            with open(path, "w") as f:
                json.dump(dict(property=prop, spec=d["spec"], verdict=v, record=r), f)
            print("  %s: event %d (%s): %s" % (path, v["event"], v["ev"], ", ".join(v["clauses"])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d violating events in %d histories" % (len(viols), ntr))
        sys.exit(1)
    print("OK %s tier=%s traces=%d events=%d states=%d wall=%.1fs" %
          (prop, tier, ntr, nev, ev["coverage"]["states"], time.time() - t0))


def replay(a):
    v = json.load(open(a.replay))
    work = os.path.join(HERE, "out", "replay")
    os.makedirs(work, exist_ok=True)
    rec = v["record"]
    if a.fresh:
        s = rec["src"]
        d = dict(driver=s["driver"], n=dict(quick=1))
        gens = [x for x in REG[s["prop"]]["drivers"] if x["driver"] == s["driver"] and "gen" in x]
        if gens:
            gen = gens[0]
            programs(s["prop"], gen, a.tier, s["seed"], work, dict(models=[]))
        fs = run_driver(s["prop"], d, "quick", s["seed"], work, start=s["index"], count=1)
        rec = json.loads(open(fs[0]).readline())
    res = dict(tlc_states=0, tlc_transitions=0)
    bad = validate(v["spec"], [rec], work, res, "replay")
    for x in bad.get(0, []):
        print("event %d (%s): %s" % (x["event"], x["ev"], ", ".join(x["clauses"])))
        print(json.dumps(rec["events"][x["event"] - 1])[:2000])
    if bad:
        print("VIOLATION property=%s replay=%s" % (v["property"], a.replay))
        sys.exit(1)
    print("conforms")


if __name__ == "__main__":
    try:
        main()
    except subprocess.TimeoutExpired as e:
        die("timeout: %s" % (e.cmd,))
