"""known_findings.json from the fix commits of /repo and the property each was found under (run by hand)"""
import json, os, subprocess
M = {"regional effects swallow": "C24", "ALE local effects use": "C02", "bin effect and variance keep": "C02", "accumulated effect is flat": "C02", "pdp_nd_non": "C01", "RHALE.fit accepts": "C22",
     "fixed binning refuses": "C06", "binning works with min_points=None": "C06", "small feature ranges far": "C06", "an instance on a bin edge": "C06", "dynamic programming never": "C07", "dynamic programming bins end": "C06",
     "refitting for another": "C08", "axis limits of one": "C10", "SHAP-DP is centered": "C05", "points_for_centering": "C05", "integer design": "C15", "nodes at depth two": "C13", "instances on a split": "C11",
     "a node's effect": "C13", "evaluating a region": "C13", "plotting a region": "C13", "plotting with scaled": "C14", "regional PDP measures": "C12", "categorical features may": "C12", "level statistics": "C18",
     "regions on which SHAP": "C12", "numerical jacobian of": "C15", "ALE plots can scale": "C17", "SHAP-DP plots without": "C17", "the std_err band": "C17", "d-PDP plots": "C17", "default axis labels": "C17",
     "H-index passes": "C20", "REPID uses what": "C20", "REPID uses all": "C20", "plotting the H-index": "C20", "the H-index of a feature": "C20", "REPID.plot computes": "C20", "the one-versus-rest": "C20", "the data transformer": "C21",
     "numerical derivatives are right": "C15", "regional effects of integer": "C15", "refuse feature selections": "C22", "regional effects refuse": "C22", "regional ALE refuses": "C22", "changing axis": "C15", "changing the splits": "C15", "changing a binning": "C15", "changing the arrays": "C15"}
out = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], text=True).splitlines():
    h, s = line.split(" fix: ", 1)
    k = [v for q, v in M.items() if s.startswith(q)]
    assert len(k) == 1, s
    out.append("fixed: property=%s %s %s" % (k[0], h, s))
json.dump({"findings": [], "fixed": out}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
print(len(out))
