#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, "NOT_APPLICABLE", {})
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["id"] in registry.CHECKS or p["id"] in NA, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in props.PROPS]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in NA:
        continue
    c = registry.CHECKS[i]
    names = [e["name"] for e in c["entries"]]
    assert len(set(names)) == len(names), names
    b = "; ".join("%s: %s" % (e["name"], e.get("bounds", "")) for e in c["entries"])
    checks.append(dict(property=i, quick_cmd="python3 run.py --property %s --tier quick" % i,
                       thorough_cmd="python3 run.py --property %s --tier thorough" % i,
                       technique="symbolic execution of the LLVM IR of the real code, assertions decided by Z3",
                       level="model_checking",
                       level_note="Bounded: holds for every input within the bounds (%s). Trusts clang's IR, the engine's instruction semantics and libc models (sampled paths are replayed on a sanitised native build), and Z3. Violations are reported only after native replay." % b))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               hooks=dict(guard="none", enable="no hooks are needed: harnesses in /verif compile /repo's sources directly", source_commits=[])),
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
head = "<!-- generated by lib/gen.py -->\n"
tail = "<!-- end of generated part -->\n"
d = open(V + "/DESIGN.md").read()
out = []
for p in props.PROPS:
    i = p["id"]
    if i in NA:
        out.append("### %s %s\n\nNot applicable: %s\n" % (i, p["title"], NA[i]))
        continue
    out.append("### %s %s\n\nCode: %s. Harness: %s.\n" % (i, p["title"], ", ".join("`%s`" % a for a in p["anchors"]["mechanism"]), ", ".join(registry.CHECKS[i]["harness"])))
    for e in registry.CHECKS[i]["entries"]:
        q, t = e.get("params", {}), e.get("tparams", e.get("params", {}))
        fm = lambda x: " ".join("%s=%s" % kv for kv in x.items())
        ps = "" if not q and not t else " [%s]" % (fm(q) if q == t else "%s; thorough: %s" % (fm(q), fm(t)))
        out.append("* `%s`%s: %s. Bounds: %s%s." % (e["name"], " (thorough only)" if e.get("thorough_only") else "", e.get("what", ""), e.get("bounds", ""), ps))
    out.append("")
a, b = d.index(head) + len(head), d.index(tail)
open(V + "/DESIGN.md", "w").write(d[:a] + "\n" + "\n".join(out) + "\n" + d[b:])
print(len(checks), "checks")
