"""Writes the `fixed:` lines of known_findings.txt from the fix commits of /repo (property per subject below)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("kNN search keeps", "P01"), ("KDTree.within and", "P02"), ("within_dist_from", "P02"), ("the infinity distance", "P04"),
    ("neighbour queries in which", "P04"), ("str_lcs_seq", "P16"), ("declared output types of fuzz", "P07"), ("random_binomial", "P30"),
    ("gmean and", "P29"), ("weighted_hmean", "P29"), ("weighted_corr", "P29"), ("cosine_sim", "P29"), ("mann_whitney_u tie", "P28"),
    ("mann_whitney_u on all-tied", "P28"), ("confusion matrix", "P14"), ("ROC AUC and", "P13"), ("binary metrics without", "P13"),
    ("calculate_ndcg groups", "P15"), ("multi-target regression", "P07"), ("principal_components", "P22"), ("PCA expressions", "P22"),
    ("singular_values", "P22"), ("chi2(", "P06"), ("float functions of integer", "P07"), ("query_tpr_fpr and", "P07"), ("psi counts", "P25"),
    ("psi_w_breakpoints", "P25"), ("woe and info_value", "P25"), ("query_similar_count with", "P05"), ("mann_whitney_u and lin_reg", "P06"),
    ("the noise perturb", "P06"), ("integrate_trapz works", "P06"), ("str_fuzz against", "P06"), ("random columns are", "P06"),
]
MAP += [tuple(l.rstrip("\n").split("\t")) for l in open(os.path.join(HERE, "tools/fixed_map.tsv"))] if os.path.exists(os.path.join(HERE, "tools/fixed_map.tsv")) else []
path = os.path.join(HERE, "known_findings.txt")
keep = [l for l in open(path) if not l.startswith("fixed:")] if os.path.exists(path) else []
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [b for a, b in MAP if s[5:].startswith(a)]
    if not p:
        sys.exit(f"no property for: {s}")
    out.append(f"fixed: property={p[-1]} {h} {s[5:]}\n")
open(path, "w").writelines(keep + out)
print(len(out), "fixed")
