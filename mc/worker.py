"""One worker process: runs its share of the cases of each family with a given thread count."""
import importlib
import json
import sys
import time
import warnings

warnings.filterwarnings("ignore")


def main():
    prop, tier, shard, nshards, threads, out = sys.argv[1:7]
    shard, nshards, threads = int(shard), int(nshards), int(threads)
    from .core import run_case

    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    import polars_ds  # noqa: F401  (an extension that cannot be imported is an error, not a verdict)

    f = open(out, "w", buffering=1)
    f.write(json.dumps({"t": "ready"}) + "\n")
    nfail = 0
    for fam in mod.FAMILIES:
        if threads not in fam.threads or tier not in fam.tiers:
            continue
        t0 = time.time()
        tot = dict(t="fam", fam=fam.name, cases=0, states=0, transitions=0, traces=0)
        outcomes, sample = set(), None
        for i, case in enumerate(fam.cases(tier)):
            if i % nshards != shard:
                continue
            f.write(json.dumps({"t": "case", "fam": fam.name, "case": case}) + "\n")
            rec = run_case(fam, case)
            tot["cases"] += 1
            tot["states"] += rec.states
            tot["transitions"] += rec.transitions
            tot["traces"] += rec.traces
            outcomes |= rec.outcomes
            if sample is None or tot["cases"] == 7:
                sample = case
            for x in rec.fails:
                nfail += 1
                f.write(json.dumps({"t": "fail", "fam": fam.name, "case": case, "threads": threads, **x}) + "\n")
            if nfail > 60:
                break
        tot["wall"] = time.time() - t0
        tot["outcomes"] = sorted(outcomes)[:20000]
        tot["sample"] = sample
        f.write(json.dumps(tot) + "\n")
        if nfail > 60:
            break
    f.write(json.dumps({"t": "done"}) + "\n")
    f.close()


main()
