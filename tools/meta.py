#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and the property section of DESIGN.md from tools/props.py and the
SPEC headers of the harnesses."""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa: E402


def specs():
    out = {}
    for f in sorted(os.listdir(HERE + "/harness")):
        s = open(HERE + "/harness/" + f).read()
        m = re.search(r"/\*SPEC(.*?)SPEC\*/", s, re.S)
        if m:
            j = json.loads(m.group(1))
            j.setdefault("name", f[:-4])
            out.setdefault(j["property"], []).append(j)
    return out


def bound(b, t):
    return b if isinstance(b, str) else b.get(t) or b.get("quick")


def main():
    sp = specs()
    na = {p["id"] for p in NOT_APPLICABLE}
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS + NOT_APPLICABLE:
            assert len(p["title"]) <= 80, p["id"]
            q = {k: p[k] for k in ("id", "title", "statement")}
            q["quantifier"] = {"over": p["over"], "text": p["for_all"]}
            q["why_tests_cant"] = p["tests"]
            q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": [p["observe"]], "hook_needed": None}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), (p["id"], x)
            if p["id"] not in na:
                assert p["id"] in sp, "no harness for " + p["id"]
    checks = []
    for p in PROPS:
        hs = sp[p["id"]]
        real = any(h.get("real") for h in hs)
        note = "Exhaustive within: " + " | ".join(bound(h["bounds"], "quick") for h in hs if not h.get("thorough_only")) + "."
        note += " Outside: " + "; ".join(sorted({h["outside"] for h in hs if h.get("outside")})) + "."
        ass = sorted({x for h in hs for x in h.get("assumptions", [])})
        if ass:
            note += " Assumes: " + "; ".join(ass) + "."
        note += (" Arithmetic over the reals for part of it (rounding not modelled; counterexamples are confirmed in floating point)." if real else "")
        note += " Trusts clang, the instrumentation pass, the models of library functions and Z3; every reported counterexample is replayed on a plain g++ build."
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": "symbolic execution of the compiled source (LLVM IR instrumentation), every branch, assertion and value decided by Z3",
                       "level": "model_checking", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(HERE + "/MANIFEST.json", "a").write("\n")
    d = open(HERE + "/DESIGN.md").read()
    a, b = "<!-- properties: generated by tools/meta.py -->\n", "<!-- end of generated part -->\n"
    if a in d:
        t = ""
        for p in PROPS:
            t += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
            t += "*Oracle.* %s\n\n" % p["oracle"]
            for h in sp[p["id"]]:
                t += "* `harness/%s.cpp`%s: %s." % (h["name"], " (thorough tier only)" if h.get("thorough_only") else "", bound(h["bounds"], "quick"))
                if isinstance(h["bounds"], dict) and h["bounds"].get("thorough"):
                    t += " Thorough: %s." % h["bounds"]["thorough"]
                if h.get("outside"):
                    t += " Outside: %s." % h["outside"]
                if h.get("assumptions"):
                    t += " Assumes: %s." % "; ".join(h["assumptions"])
                if h.get("real"):
                    t += " Real arithmetic."
                t += "\n"
            t += "\n"
        for p in NOT_APPLICABLE:
            t += "### %s %s (not applicable)\n\n%s\n\n%s\n\n" % (p["id"], p["title"], p["statement"], p["reason"])
        i, j = d.index(a) + len(a), d.index(b)
        open(HERE + "/DESIGN.md", "w").write(d[:i] + "\n" + t + d[j:])
    missing = set(sp) - {p["id"] for p in PROPS}
    if missing:
        print("harnesses without a property entry:", sorted(missing))
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(HERE + "/properties.jsonl"):
            jsonschema.validate(json.loads(line), s)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid: %d properties, %d checks" % (len(PROPS) + len(NOT_APPLICABLE), len(checks)))
    except ImportError:
        pass


main()
