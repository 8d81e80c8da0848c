"""Orchestrates one check: shards the enumeration over worker processes, gathers the verdict."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = {"quick": 240, "thorough": 900}
WALL_S = {"quick": 780, "thorough": 7200}


def load_known(prop):
    """Lines `known: {"property":..., "key":..., "what":...}`; `fixed:` lines suppress nothing."""
    p = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def replay(prop, path):
    from .core import run_case

    d = json.load(open(path))
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    fam = {f.name: f for f in mod.FAMILIES}[d["family"]]
    rec = run_case(fam, d["case"])
    for x in rec.fails:
        print(f"{x['key']}\n   {x['msg']}")
    print("REPRODUCED" if rec.fails else "NOT-REPRODUCED")
    return 1 if rec.fails else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if os.environ.get("POLARS_MAX_THREADS") != str(d.get("threads", 2)):
            os.environ["POLARS_MAX_THREADS"] = str(d.get("threads", 2))
            os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])
        sys.exit(replay(a.prop, a.replay))

    t0 = time.time()
    os.environ.setdefault("POLARS_MAX_THREADS", "2")
    mod = importlib.import_module(f"mc.props.{a.prop.lower()}")
    fams = [f for f in mod.FAMILIES if a.tier in f.tiers]
    known = load_known(a.prop)
    tmp = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    thread_values = sorted({t for f in fams for t in f.threads})
    jobs = []  # (threads, shard)
    for t in thread_values:
        jobs += [(t, i) for i in range(a.jobs)]
    running, results, fails, errors = {}, [], [], []

    def launch(t, i):
        out = os.path.join(tmp, f"{t}-{i}.jsonl")
        env = dict(os.environ, POLARS_MAX_THREADS=str(t), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   RAYON_NUM_THREADS=str(t), RUST_BACKTRACE="0", POLARS_VERBOSE="0", VERIF_CORE=str(i))
        log = open(out + ".log", "w")
        p = subprocess.Popen([sys.executable, "-m", "mc.worker", a.prop, a.tier, str(i), str(a.jobs), str(t), out],
                             stdout=log, stderr=log, env=env, cwd=HERE)
        running[(t, i)] = (p, out)

    def gather(t, i, rc, out, hang=False):
        lines = []
        if os.path.exists(out):
            for l in open(out):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        last_case, done = None, False
        for l in lines:
            if l["t"] == "case":
                last_case = l
            elif l["t"] == "fail":
                fails.append(l)
            elif l["t"] == "fam":
                results.append(l)
                last_case = None
            elif l["t"] == "done":
                done = True
        if done:
            return
        logtail = open(out + ".log").read()[-1500:]
        if last_case is not None and (hang or rc in (-4, -6, -8, -11, -7)):
            what = "did not terminate" if hang else f"process died with signal {-rc}"
            key = f"{last_case['fam']}|{'hang' if hang else 'crash'}|{json.dumps(last_case['case'])[:300]}"
            fails.append(dict(t="fail", fam=last_case["fam"], case=last_case["case"], threads=t, key=key,
                              msg=f"{what}\n{logtail}"))
        else:
            errors.append(f"worker {t}/{i} ended with {rc}: {logtail}")

    pending = list(jobs)
    stamp = {}
    while pending or running:
        while pending and len(running) < a.jobs:
            launch(*pending.pop(0))
        time.sleep(0.05)
        now = time.time()
        for k in list(running):
            p, out = running[k]
            rc = p.poll()
            if rc is not None:
                del running[k]
                gather(*k, rc, out)
                continue
            try:
                m = os.stat(out).st_size
            except OSError:
                m = 0
            if stamp.get(k, (None, 0))[0] != m:
                stamp[k] = (m, now)
            elif now - stamp[k][1] > HANG_S[a.tier]:
                p.kill()
                p.wait()
                del running[k]
                gather(*k, -9, out, hang=True)
        if now - t0 > WALL_S[a.tier]:
            for p, _ in running.values():
                p.kill()
            errors.append(f"wall cap {WALL_S[a.tier]} s reached")
            break

    # ---- verdict -----------------------------------------------------------------------------
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    seen, new, hit_known = set(), [], {}
    for f in fails:
        if f["key"] in known:
            hit_known.setdefault(f["key"], f)
            continue
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        new.append(f)
    new.sort(key=lambda f: (len(json.dumps(f["case"])), f["key"]))
    bysum = {}
    for r in results:
        d = bysum.setdefault(r["fam"], dict(cases=0, states=0, transitions=0, comparisons=0, outcomes=set(), wall_s=0.0))
        d["cases"] += r["cases"]
        d["states"] += r["states"]
        d["transitions"] += r["transitions"]
        d["comparisons"] += r["traces"]
        d["outcomes"] |= set(r["outcomes"])
        d["wall_s"] = round(max(d["wall_s"], r["wall"]), 2)
    samples = []
    for r in results:
        if r.get("sample") is not None and not any(s["family"] == r["fam"] for s in samples):
            samples.append({"family": r["fam"], "case": r["sample"]})
    n_states = sum(d["states"] for d in bysum.values())
    n_trans = sum(d["transitions"] for d in bysum.values())
    n_cmp = sum(d["comparisons"] for d in bysum.values())
    n_out = sum(len(d["outcomes"]) for d in bysum.values())
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": n_states, "transitions": n_trans, "traces_validated_against_impl": n_cmp,
            "distinct_outcomes": n_out,
            "thread_counts": thread_values,
            "families": {k: {**{x: y for x, y in d.items() if x != "outcomes"}, "distinct_outcomes": len(d["outcomes"])}
                         for k, d in bysum.items()},
            "bounds": {f.name: f.bound for f in fams},
            "rule": "states: inputs / model states enumerated without repetition; transitions: operations executed on the "
                    "real extension; traces_validated_against_impl: observations compared with the reference model.",
            "samples": samples[:12],
            "exhaustive": not errors and not new,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(evdir, f"{a.prop}.json"), "w"), indent=1)
    for k in known:
        if k in hit_known:
            print(f"KNOWN-FINDING: property={a.prop} {known[k]}")
    for k, d in bysum.items():
        print(f"{a.prop} {k}: cases={d['cases']} states={d['states']} transitions={d['transitions']} "
              f"comparisons={d['comparisons']} outcomes={len(d['outcomes'])} wall={d['wall_s']}s")
    print(f"{a.prop} {a.tier}: states={n_states} transitions={n_trans} comparisons={n_cmp} outcomes={n_out} "
          f"wall={ev['wall_s']}s")
    for n, f in enumerate(new[:10]):
        path = os.path.join(evdir, "replays", f"{a.prop}-{n}.json")
        json.dump({"property": a.prop, "family": f["fam"], "case": f["case"], "threads": f["threads"],
                   "key": f["key"], "msg": f["msg"],
                   "how": f"bash check.sh {a.prop} --replay {path}"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"   key={f['key']}\n   {f['msg'][:700]}")
    shutil.rmtree(tmp, ignore_errors=True)
    for e in errors:
        print("ERROR:", e)
    if new:
        sys.exit(1)
    if errors:
        sys.exit(2)
    if n_cmp == 0:
        print("ERROR: nothing was explored")
        sys.exit(2)
    sys.exit(0)


main()
