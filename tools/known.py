"""Writes known_findings.json (development only; never run by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()}
def h(sub):
    r = [v for k, v in log.items() if sub in k]
    assert len(r) == 1, (sub, r)
    return r[0]
F, Kn = [], []
exec(open(os.path.join(V, "tools", "findings.py")).read())
out = [dict(property=p, status="fixed", commit=h(s), what=w, line=f"fixed: property={p} {h(s)} {w}") for p, s, w in F]
out += [dict(status="known", **k) for k in Kn]
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(F), "fixed,", len(Kn), "known")
