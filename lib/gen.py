#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        assert len(p["title"]) <= 80, p["title"]
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")
        if p["na"] or not os.path.exists(V + "/checks/%s.py" % p["id"]):
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
        else:
            checks.append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"],
                               thorough_cmd="bin/check %s --tier thorough" % p["id"],
                               technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="All checks rebuild a scratch copy of /repo's working tree; no hooks in /repo are needed. "
               "See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
import glob, textwrap
o = []
for p in props.P:
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append(textwrap.fill("*Specified:* " + p["statement"], 140, break_long_words=False, break_on_hyphens=False))
    if p["na"]:
        o.append("*Not applicable:* " + p["na"] + "\n")
        continue
    o.append(textwrap.fill("*Enumerated:* " + p["text"] + ".", 140, break_long_words=False, break_on_hyphens=False))
    o.append(textwrap.fill("*Decided by:* " + p["technique"] + ". " + (p["note"] or ""), 140, break_long_words=False, break_on_hyphens=False))
    o.append(textwrap.fill("*Beyond tests:* " + p["why"] + ". *Code:* " + "; ".join("%s (%s)" % m for m in p["mech"]) + ". *Quick run:* about %s s." %
                           props.COST.get(p["id"], "30"), 140, break_long_words=False, break_on_hyphens=False) + "\n")
s = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[-2]
    s.append("* `%s` (%s): needs %s; breaks: %s. **%s**" % (i, d["property"], d["needs"], d["what_it_breaks"], props.SEEDS.get(i, "caught by " + d["property"])))
nf = sum('"fixed"' in l for l in open(V + "/known_findings.jsonl"))
t = open(V + "/lib/DESIGN.in").read()
for a, b in (("PROPS", "\n".join(o)), ("NFIX", str(nf)), ("LIMITS", open(V + "/lib/limits.md").read().strip().replace("\n**", "\n\n**")), ("SEEDS", "\n".join(s))):
    t = t.replace("@@%s@@" % a, b)
open(V + "/DESIGN.md", "w").write(t)
