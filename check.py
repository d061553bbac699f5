#!/usr/bin/env python3
"""Decides one property: compiles its harnesses together with /repo's current sources (instrumented for symbolic
execution, and natively for replay), explores them exhaustively with Z3, replays every counterexample.

  check.py <property> [--tier quick|thorough] [--harness NAME] [--repo DIR]
  check.py --replay FILE          (re-run a recorded counterexample natively)
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import build as engine  # noqa: E402

REPO = "/repo"
PKG_INC = {
    "openscenario_interpreter": "openscenario/openscenario_interpreter/include",
    "expr": "common/math/arithmetic/include",
    "geometry": "common/math/geometry/include",
    "exception": "common/scenario_simulator_exception/include",
    "junit": "common/simple_junit/include",
    "status_monitor": "common/status_monitor/include",
    "concealer": "external/concealer/include",
    "simulation_interface": "simulation/simulation_interface/include",
    "traffic_simulator": "simulation/traffic_simulator/include",
    "behavior_tree": "simulation/behavior_tree_plugin/include",
    "do_nothing": "simulation/do_nothing_plugin/include",
    "sensor": "simulation/simple_sensor_simulator/include",
    "random": "test_runner/random_test_runner/include",
    "preprocessor": "openscenario/openscenario_preprocessor/include",
    "agnocast": "common/agnocast_wrapper/include",
    "get_parameter": "common/get_parameter/include",
}


def load_specs(prop=None):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.cpp"))):
        head = open(f).read()
        m = re.search(r"/\*SPEC(.*?)SPEC\*/", head, re.S)
        if not m:
            continue
        s = json.loads(m.group(1))
        s["file"] = f
        s.setdefault("name", os.path.basename(f)[:-4])
        if prop is None or s["property"] == prop:
            out.append(s)
    return out


def includes(spec):
    inc = ["-I" + os.path.join(HERE, "engine", "include"), "-I" + os.path.join(HERE, "harness")]
    for d in spec.get("stubs", []):
        inc.append("-I" + (os.path.join(WORK, "msgs") if d == "msgs" else os.path.join(WORK, "proto") if d == "protos" else os.path.join(HERE, "stubs", d)))
        if d == "protos":
            inc.append("-I" + os.path.join(WORK, "proto", "simulation_interface"))
    for p in PKG_INC.values():
        inc.append("-I" + os.path.join(REPO, p))
    for p in spec.get("inc", []):
        inc.append("-I" + os.path.join(REPO, p))
    inc += ["-I/usr/include/eigen3"]
    return inc


class Tool(Exception):
    pass


WORK = None


def prepare(specs, work):
    """the repository's .msg files and the standard ones -> C++ structs (what rosidl would generate)"""
    global WORK
    WORK = work
    if any("protos" in s.get("stubs", []) for s in specs):
        # the repository's .proto files, translated by protoc as its build does
        o = os.path.join(work, "proto", "simulation_interface")
        d = os.path.join(REPO, "simulation/simulation_interface/proto")
        os.makedirs(o, exist_ok=True)
        run(["protoc", "--cpp_out=" + o, "-I" + d] + sorted(glob.glob(d + "/*.proto")))
    if any("msgs" in s.get("stubs", []) for s in specs):
        sys.path.insert(0, os.path.join(HERE, "stubs"))
        import genmsg
        genmsg.generate(REPO, os.path.join(HERE, "stubs"), os.path.join(work, "msgs"))


def braces(s):
    m = re.search(r"\{([^{}]*)\}", s)
    if not m:
        return [s]
    return [y for x in m.group(1).split(",") for y in braces(s[:m.start()] + x + s[m.end():])]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise Tool("command failed: " + " ".join(cmd) + "\n" + "\n".join(p.stdout.splitlines()[:60]))


def expand(spec):
    srcs = []
    for s in [x for s in spec.get("src", []) for x in braces(s)]:
        if s.startswith("%protos/"):
            srcs += sorted(glob.glob(os.path.join(WORK, "proto", "simulation_interface", s[8:])))
        elif s.startswith("@"):
            srcs += sorted(glob.glob(os.path.join(HERE, s[1:])))
        else:
            g = sorted(glob.glob(os.path.join(REPO, s)))
            if not g:
                raise Tool("no source file matches " + s)
            srcs += g
    return srcs


def compile_all(specs, work, pool, native_only=False):
    """returns {spec name: (instrumented binary, native binary)}"""
    objs, futs, res = {}, [], {}
    prepare(specs, work)
    for sp in specs:
        common = includes(sp) + ["-D" + d for d in sp.get("defs", [])] + ["-DBOOST_ALLOW_DEPRECATED_HEADERS"]
        for f in sp.get("force_include", []):
            common += ["-include", f]
        for src in expand(sp) + [sp["file"]]:
            for kind in (["nat"] if native_only else ["sx", "nat"]):
                key = (src, kind, tuple(common), tuple(sp.get("nat_flags", [])) if kind == "nat" else ())
                if key in objs:
                    continue
                o = os.path.join(work, "o%d.%s.o" % (len(objs), kind))
                objs[key] = o
                if kind == "sx":
                    cmd = [engine.CLANG] + engine.SXF + common + sp.get("sx_flags", []) + ["-c", src, "-o", o]
                else:
                    cmd = ["g++", "-O1", "-g1", "-std=c++17", "-w", "-fno-pie", "-DSX_NATIVE", "-D_GLIBCXX_ASSERTIONS"] + common + sp.get("nat_flags", []) + ["-c", src, "-o", o]
                futs.append(pool.submit(run, cmd))
    for f in futs:
        f.result()
    links = []
    for sp in specs:
        common = includes(sp) + ["-D" + d for d in sp.get("defs", [])] + ["-DBOOST_ALLOW_DEPRECATED_HEADERS"]
        for f in sp.get("force_include", []):
            common += ["-include", f]
        libs = sp.get("libs", [])
        B = engine.OUT
        bins = {}
        for kind in (["nat"] if native_only else ["sx", "nat"]):
            os_ = [objs[(s, kind, tuple(common), tuple(sp.get("nat_flags", [])) if kind == "nat" else ())] for s in expand(sp) + [sp["file"]]]
            b = os.path.join(work, sp["name"] + "." + kind)
            rt = [B + "/sx_libc.o", B + "/sx_rt.o"] if kind == "sx" else [B + "/sx_native.o"]
            links.append(pool.submit(run, ["g++", "-no-pie"] + os_ + rt + ["-o", b] + libs + ["-lpthread"]))
            bins[kind] = b
        res[sp["name"]] = (bins.get("sx"), bins["nat"])
    for f in links:
        f.result()
    return res


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")


def in_repo(n):
    return not re.match(r"^(_GLOBAL__|_ZNSt|void boost::|bool boost::|std::|__gnu_cxx|boost::|sx_|sxm_|void std::|bool std::|decltype|__|operator|non-virtual|Eigen::|google::|pugi::)", n) and "sxm_" not in n and "sx::" not in n


def main():
    global REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    REPO = a.repo
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    engine.build()
    if a.replay:
        r = json.load(open(a.replay))
        work = tempfile.mkdtemp(prefix="sxreplay.")
        try:
            sp = [s for s in load_specs(r["property"]) if s["name"] == r["harness"]]
            with cf.ThreadPoolExecutor(a.jobs) as pool:
                b = compile_all(sp, work, pool, native_only=True)
            inp = os.path.join(work, "inputs")
            open(inp, "w").write("".join("%s %d\n" % kv for kv in r["inputs"].items()))
            env = dict(os.environ, SX_VERBOSE="1", VERIF_TIER=r.get("tier", "quick"))
            try:
                rc = subprocess.call([b[r["harness"]][1], inp], env=env, timeout=60)
            except subprocess.TimeoutExpired:
                rc = "no termination within 60 s"
            print("exit status of the native replay:", rc, "(0 = the property holds on this input)")
            sys.exit(0 if rc == 0 else 1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    specs = load_specs(a.property)
    if a.harness:
        specs = [s for s in specs if s["name"] == a.harness]
    if tier == "quick":
        specs = [s for s in specs if not s.get("thorough_only")]
    if not specs:
        raise SystemExit("no harness for property %s" % a.property)
    work = tempfile.mkdtemp(prefix="sxcheck.%s." % a.property)
    results, failed = {}, False
    try:
        with cf.ThreadPoolExecutor(a.jobs) as pool:
            bins = compile_all(specs, work, pool)
        tcompile = time.time() - t0
        for sp in specs:
            cfg = dict(time=120, qtimeout=10000)
            cfg.update(sp.get("quick", {}))
            if tier == "thorough":
                cfg.update(dict(time=cfg["time"] * 8, qtimeout=cfg["qtimeout"] * 4))
                cfg.update(sp.get("thorough", {}))
            wd = os.path.join(work, sp["name"] + ".w")
            os.makedirs(wd)
            out = os.path.join(wd, "out.json")
            sx, nat = bins[sp["name"]]
            cmd = [os.path.join(engine.OUT, "explorer"), "--bin", sx, "--native", nat, "--out", out, "--workdir", wd, "--jobs", str(a.jobs),
                   "--time", str(cfg["time"]), "--qtimeout", str(cfg["qtimeout"]), "--seed", str(seed),
                   "--run-timeout", str(cfg.get("run_timeout", 20)), "--native-timeout", str(cfg.get("native_timeout", 20)),
                   "--conc-cap", str(cfg.get("conc_cap", 600))]
            if cfg.get("max_events"):
                cmd += ["--max-events", str(cfg["max_events"])]
            if cfg.get("paths"):
                cmd += ["--paths", str(cfg["paths"])]
            if sp.get("real"):
                cmd.append("--real")
            if a.verbose:
                cmd.append("--verbose")
            try:
                p = subprocess.run(cmd, timeout=cfg["time"] + 90, env=dict(os.environ, **({"SX_FORK_SELECT": "1"} if sp.get("fork_selects") else {})), stdout=None if a.verbose else subprocess.PIPE, stderr=None if a.verbose else subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                pass
            if not os.path.exists(out):
                raise Tool("the explorer produced no result for " + sp["name"])
            r = json.load(open(out))
            # the paths' own inputs through the native build: validates the instrumented execution
            ok = bad = 0
            for i, s in enumerate(r.get("samples", [])):
                f = os.path.join(wd, "sample")
                open(f, "w").write("".join("%s %d\n" % kv for kv in s.items()))
                try:
                    q = subprocess.run([nat, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=cfg.get("native_timeout", 20))
                    if q.returncode == 0:
                        ok += 1
                    elif not sp.get("real") or sp.get("float_samples"):
                        bad += 1
                        m = re.search(r"SX-FAIL (.*)", q.stdout.decode(errors="replace"))
                        if q.returncode != 3:
                            r["violations"].append(dict(label=m.group(1) if m else "native exit %d" % q.returncode, kind="assert", confirmed=True,
                                                        native="native build fails on the input of an explored path", inputs=s))
                except subprocess.TimeoutExpired:
                    pass
            reg = set(r["functions"])
            r["opaque"] = [o for o in r["opaque"] if not (o.startswith("mem:") and o[4:] in reg)] if isinstance(r["opaque"], list) else {o: k for o, k in r["opaque"].items() if not (o.startswith("mem:") and o[4:] in reg)}
            r["validated"] = ok
            r["disagree"] = bad
            r["cfg"] = cfg
            results[sp["name"]] = r
            if a.verbose:
                q = dict(r)
                q["functions"] = [f for f in demangle(q["functions"]) if in_repo(f)]
                q.pop("samples", None)
                q.pop("executed", None)
                print(json.dumps(q, indent=1)[:6000])
        rc = report(a, specs, results, tier, seed, t0, tcompile)
        sys.exit(rc)
    except Tool as e:
        print("ERROR: " + str(e))
        sys.exit(2)
    finally:
        if a.keep:
            print("work directory kept:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def report(a, specs, results, tier, seed, t0, tcompile):
    prop = a.property
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "open"]
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol, lines, seen_known, unconfirmed = 0, [], [], []
    for sp in specs:
        r = results[sp["name"]]
        done = set()
        for v in r["violations"]:
            if not v["confirmed"]:
                r["exhaustive"] = False
                if "a candidate the real code does not confirm" not in r["incomplete"]:
                    r["incomplete"].append("a candidate the real code does not confirm")
                unconfirmed.append({"harness": sp["name"], "label": v["label"], "native": v["native"]})
                continue
            if v["label"] in done:
                continue
            done.add(v["label"])
            k = [x for x in known if x["harness"] == sp["name"] and x["label"] == v["label"]]
            if k:
                seen_known.append(k[0])
                continue
            viol += 1
            fn = os.path.join(rdir, "%s-%s-%s.json" % (prop, sp["name"], re.sub(r"[^A-Za-z0-9_.]+", "_", v["label"])[:60]))
            json.dump(dict(property=prop, harness=sp["name"], label=v["label"], tier=tier, what=v["native"], inputs=v["inputs"],
                           rerun="python3 /verif/check.py --replay " + fn), open(fn, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  %s/%s: %s" % (sp["name"], v["label"], v["native"]))
    for k in known:
        hit = k in seen_known
        ran = any(sp["name"] == k["harness"] for sp in specs)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif ran:
            print("note: the known finding %s/%s did not show in this run" % (k["harness"], k["label"]))
    tot = lambda k: sum(r[k] for r in results.values())
    fns, executed = set(), set()
    for r in results.values():
        fns.update(f for f in demangle(r["functions"]) if f and in_repo(f))
        executed.update(f for f in demangle(r["executed"]) if f and in_repo(f))
    samples = []
    for n, r in results.items():
        for s in r.get("samples", [])[:3]:
            samples.append({"harness": n, "inputs_of_one_explored_path": s})
    cov = {
        "states": tot("paths"), "transitions": tot("queries_sat") + tot("queries_unsat") + tot("queries_unknown") + tot("cache_hits"),
        "traces_validated_against_impl": tot("validated"), "samples": samples or [{"note": "no completed path"}],
        "exhaustive": all(r["exhaustive"] for r in results.values()),
        "rule": "state = one feasible path of the instrumented real code (a distinct conjunction of branch decisions, decided by Z3); transition = one solver decision (branch side, enumerated value, assertion)",
        "queries": {"sat": tot("queries_sat"), "unsat": tot("queries_unsat"), "unknown": tot("queries_unknown"), "cached": tot("cache_hits")},
        "solver_seconds": round(tot("solver_time"), 2),
        "functions_encoded": sorted(executed)[:400],
        "functions_with_symbolic_values": sorted(fns)[:400],
        "compile_seconds": round(tcompile, 1),
        "unconfirmed_candidates": unconfirmed[:20],
        "harnesses": {
            sp["name"]: {
                "bounds": sp.get("bounds", {}).get(tier) or sp.get("bounds", {}).get("quick") if isinstance(sp.get("bounds"), dict) else sp.get("bounds", ""),
                "outside": sp.get("outside", ""), "sources": sp.get("src", []), "arithmetic": "reals" if sp.get("real") else "exact (bit-vectors, IEEE-754)",
                "exhaustive": r["exhaustive"], "incomplete": r["incomplete"], "paths": r["paths"], "asserts": r["asserts"],
                "reached": r["witnesses"], "not_reached": [w for w in sp.get("witness", []) if w not in r["witnesses"]],
                "environment_or_opaque": r["opaque"], "max_query_seconds": r["max_query"], "wall_seconds": r["wall"],
            } for sp in specs for r in [results[sp["name"]]]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": sorted({x for sp in specs for x in sp.get("assumptions", [])}), "wall_s": round(time.time() - t0, 1), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    inc = sorted({i for r in results.values() for i in r["incomplete"]})
    print("%s: %d paths, %d solver decisions, %.1f s solver, %.1f s wall, exhaustive within bounds: %s%s" % (
        prop, cov["states"], cov["transitions"], cov["solver_seconds"], ev["wall_s"], cov["exhaustive"], (" (" + "; ".join(inc) + ")") if inc else ""))
    for n, h in cov["harnesses"].items():
        if h["not_reached"]:
            print("  note: %s did not reach %s" % (n, ", ".join(h["not_reached"])))
    for u in unconfirmed[:5]:
        print("  unconfirmed candidate (not reported): %(harness)s/%(label)s: %(native)s" % u)
    for line in lines:
        print(line)
    return 1 if viol else 0


if __name__ == "__main__":
    main()
