"""Writes DESIGN.md from design_head.md, meta.py, the families in mc/props, the planted bugs and known_findings.txt."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), str(ROOT / "tools")]
from meta import PROPS  # noqa: E402

out = [(ROOT / "tools/design_head.md").read_text()]
out.append("\n## Properties\n\nEach is decided by bounded exhaustive execution; 'explored' lists every family with its bound (quick; thorough in brackets).\n")
for p in PROPS:
    mod = ROOT / f"mc/props/{p['id'].lower()}.py"
    out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["na"]:
        out.append(f"\nNot applicable: {p['na']}\n")
    if not mod.exists():
        continue
    m = importlib.import_module(f"mc.props.{p['id'].lower()}")
    out.append(f"\n*Space:* {p['text']}.  *Why tests cannot settle it:* {p['why']}\n\n*Explored* (oracle: {(m.__doc__ or '').strip().splitlines()[0]})\n\n")
    for f in m.FAMILIES:
        tiers = "" if len(f.tiers) == 2 else f" [{f.tiers[0]} only]"
        th = "" if f.threads == (2,) else f" (pool sizes {', '.join(map(str, f.threads))})"
        out.append(f"* `{f.name}`{tiers}: {f.bound}{th}\n")
    ev = ROOT / f"tools/cost.json"
    cost = json.loads(ev.read_text()).get(p["id"]) if ev.exists() else None
    out.append(f"\n*Strength:* {p['note']}\n" + (f"\n*Cost of quick:* {cost}\n" if cost else ""))
out.append("\n## Planted bugs (seeded/) and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
res = {}
f = ROOT / "tools/bugs.tsv"
if f.exists():
    res = dict(l.split("\t", 1) for l in f.read_text().splitlines() if l)
for d in sorted((ROOT / "seeded").glob("*/meta.json")):
    j = json.loads(d.read_text())
    out.append(f"| {d.parent.name} | {j['property']} | {j['needs']} | {res.get(d.parent.name, '?')} |\n")
notes = ROOT / "tools/design_bugs.md"
if notes.exists():
    out.append("\n" + notes.read_text())
out.append("\n## Defects found in the code\n\n")
out.append("Lines of known_findings.txt (fixed = repaired by a `fix:` commit in /repo; known = recorded, not repaired):\n\n")
for l in (ROOT / "known_findings.txt").read_text().splitlines():
    if l.startswith(("fixed:", "known:")):
        out.append(f"* {l}\n")
(ROOT / "DESIGN.md").write_text("".join(out))
