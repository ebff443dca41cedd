#!/usr/bin/env python3
"""Decides one property.  Usage: check.py PROPERTY [quick|thorough]   or   check.py --setup

Builds, from /repo's working tree, (1) the LLVM IR of venial together with the harnesses and
the proc-macro2 model, and (2) the same harnesses against the real proc-macro2.  Runs the
symbolic executor on (1) with z3 as the deciding solver.  Replays every counterexample, and a
sample of the explored paths, on (2).
"""
import fcntl, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
import plan  # noqa: E402

BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
WIDTH = {0: 1, 1: 1, 2: 1, 3: 1, 4: 1, 8: 1, 5: 4, 6: 16, 7: 16, 9: 16, 10: 16, 11: 16}


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def build():
    """The executor, the IR and the native harness."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {
        "symex": (["cargo", "build", "--release", "--offline", "--locked"], "symex"),
        "sym": (
            ["cargo", "rustc", "--release", "--offline", "--locked", "--", "--emit=llvm-ir",
             "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            "harness/sym",
        ),
        "native": (["cargo", "build", "--offline", "--locked"], "harness/native"),
    }
    procs = {}
    for n, (cmd, d) in jobs.items():
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, n)
        if n == "sym":
            # a stale IR file must never be taken for the current one
            deps = os.path.join(BUILD, n, "release", "deps")
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.startswith("vsym") or f.startswith("libvsym"):
                        os.remove(os.path.join(deps, f))
        out = open(os.path.join(BUILD, n + ".log"), "w")
        procs[n] = (subprocess.Popen(cmd, cwd=os.path.join(ROOT, d), env=e, stdout=out, stderr=out), out)
    for n, (p, out) in procs.items():
        rc = p.wait()
        out.close()
        if rc != 0:
            sys.stdout.write(open(os.path.join(BUILD, n + ".log")).read()[-4000:])
            die("build of %s failed" % n)
    d = os.path.join(BUILD, "sym", "release", "deps")
    ll = [f for f in os.listdir(d) if f.startswith("vsym") and f.endswith(".ll")]
    if len(ll) != 1:
        die("expected one IR file, found %s" % ll)
    return {
        "symex": os.path.join(BUILD, "symex", "release", "symex"),
        "ll": os.path.join(d, ll[0]),
        "native": os.path.join(BUILD, "native", "debug", "vnative"),
    }


def symex(b, entry, params, limit, samples, scratch, steps=3000000):
    out = os.path.join(scratch, "out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [b["symex"], b["ll"], entry, "--params", ",".join(map(str, params)), "--time", str(max(1, int(limit))),
           "--samples", str(samples), "--viol", "8", "--steps", str(steps),
           "--threads", "8", "--z3", "z3", "--out", out]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return {"status": "error", "timed_out": True, "errors": ["executor: did not stop in time"], "found": [], "samples": [], "wall_s": limit + 60}
    if p.returncode != 0 or not os.path.exists(out):
        return {"status": "error", "timed_out": False, "errors": ["executor: " + p.stdout.decode(errors="replace")[-2000:]], "found": [],
                "samples": [], "wall_s": 0}
    return json.load(open(out))


def case(entry, params, vals):
    w = [entry, ",".join(map(str, params))]
    for c, x in vals:
        w.append("%d:%s" % (c, x.zfill(2 * WIDTH[c])))
    return " ".join(w)


def native(b, lines, scratch, timeout=60, verbose=False):
    """Runs cases on the real code; None where a case did not finish."""
    f = os.path.join(scratch, "cases.txt")
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    cmd = [b["native"], f] + (["v"] if verbose else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        txt, dead = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        txt, dead = (e.stdout or b"").decode(errors="replace"), "timeout"
    if verbose:
        return txt, dead
    res = [l.split("\t") for l in txt.splitlines()]
    return res, dead


def reproduces(b, line, f, scratch):
    """Does the real code show this counterexample?  Returns (yes, description)."""
    res, dead = native(b, [line], scratch, timeout=20)
    if f["kind"] == "hang":
        return dead == "timeout" or (not res and dead not in (0, None)), "did not finish in 20 s" if dead == "timeout" else "died: %s" % dead
    if not res:
        return dead == "timeout" or dead not in (0,), "no result: %s" % dead
    outcome, num = res[0][0], int(res[0][1])
    msg = res[0][3] if len(res[0]) > 3 else ""
    if outcome == "assert":
        return True, "assertion %d (%s)" % (num, plan.ASSERTS.get(num, ""))
    if outcome == "panicked":
        return True, "panic in phase %d (%s): %s" % (num, plan.ASSERTS.get(num, ""), msg)
    return False, "%s %s %s" % (outcome, num, msg)


def recorded(k):
    """Is this finding listed in known-findings.txt?"""
    key = "known: property=%s %s[%s] assertion %d:" % (k["property"], k["entry"], ",".join(map(str, k["params"])), k["id"])
    with open(os.path.join(ROOT, "known-findings.txt")) as h:
        return any(l.startswith(key) for l in h)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build()
        print("setup done")
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return run(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, scratch):
    b = build()
    t_build = time.time() - t0
    cfg = plan.CHECKS[prop]
    budget = cfg.get("budget", {"quick": 110, "thorough": 1500})[tier]
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    hard = 480 if tier == "quick" else 7200
    # those with a time limit of their own last
    runs = sorted((dict(r) for r in cfg["runs"]), key=lambda r: "cap" in r)
    ev = []
    # inconclusive: the machinery itself failed; incomplete: part of what was to be explored was not
    violations, inconclusive, incomplete, notes = [], [], [], []
    validated = mismatched = 0
    sample_text = []

    def one(r, level, limit, mandatory):
        nonlocal validated, mismatched
        params = r["levels"][level]
        res = symex(b, r["entry"], params, limit, r.get("samples", cfg.get("samples", 24)), scratch, r.get("steps", 3000000))
        res["params"], res["level"], res["mandatory"] = params, level, mandatory
        res["bounds"] = r["bounds"](params) if callable(r.get("bounds")) else r.get("bounds", "")
        ev.append((r, res))
        lines = {}
        for f in res["found"]:
            line = case(r["entry"], params, f["vals"])
            ok, what = reproduces(b, line, f, scratch)
            if ok:
                violations.append((r, f, line, what))
                break
            lines[line] = what
            notes.append("counterexample of the executor not shown by the real code: %s %s %s: %s" % (
                r["entry"], f["kind"], f["id"], what))
        else:
            if res["found"]:
                # a path longer than the step bound, which the real code finishes: outside the bounds
                (incomplete if all(f["kind"] == "hang" for f in res["found"]) else inconclusive).append(
                    "%s: counterexample does not replay: %s" % (r["entry"], list(lines.values())[:2]))
        decided = res.get("paths_completed", 0) + res.get("paths_panicked", 0)
        if res["errors"]:
            what = "%s %s: %d paths given up: %s" % (r["entry"], params, res.get("paths_abandoned", 0), res["errors"][:3])
            # where the executor gives up more than it decides, nothing has been decided
            (incomplete if r.get("cap") or decided > 4 * res.get("paths_abandoned", 0) and "paths_abandoned" in res else inconclusive).append(what)
        if res.get("timed_out") and mandatory and not res["found"]:
            what = "%s %s: not finished within %d s, %d paths decided" % (r["entry"], params, limit, decided)
            (incomplete if r.get("cap") or decided and res.get("assertions", 0) else inconclusive).append(what)
        # the model against the real code, on a sample of the explored paths
        if res["samples"]:
            got, dead = native(b, [case(r["entry"], params, s["vals"]) for s in res["samples"]], scratch)
            for s, g in zip(res["samples"], got):
                want = "panic" if s["outcome"] == "panic" else "ok"
                reach = ",".join(map(str, s["reach"]))
                if g[0] == want and g[2] == reach:
                    validated += 1
                else:
                    mismatched += 1
                    notes.append("path differs on the real code: %s: model %s [%s], real %s [%s]" % (
                        case(r["entry"], params, s["vals"])[:3000], s["outcome"], reach, g[0] + ":" + g[1], g[2]))
            if len(got) < len(res["samples"]):
                inconclusive.append("native run of sampled paths ended early: %s" % dead)
            if len(sample_text) < 6:
                txt, _ = native(b, [case(r["entry"], params, res["samples"][0]["vals"])], scratch, verbose=True)
                sample_text.append("%s %s: %s" % (r["entry"], params, txt.strip().replace("\n", " | ")[:600]))
        return res

    # first every run at its own mandatory bound, then as deep as the budget allows
    for i, r in enumerate(runs):
        r["at"] = r.get("floor", {}).get(tier, 0) if isinstance(r.get("floor"), dict) else r.get("floor", 0)
        limit = (hard - (time.time() - t0)) / max(1, sum("cap" not in x for x in runs[i:]))
        res = one(r, r["at"], min(max(20, limit), r.get("cap", 1e9)), True)
        r["wall"] = res.get("wall_s", 0)
        r["done"] = res["status"] == "complete"
        if violations:
            break
    while not violations and not inconclusive and not incomplete:
        rest = budget - (time.time() - t0)
        cand = [r for r in runs if r["done"] and r["at"] + 1 < len(r["levels"]) and r["wall"] * r.get("growth", 6) < rest]
        if not cand:
            break
        r = min(cand, key=lambda r: r["wall"] * r.get("growth", 6))
        r["at"] += 1
        res = one(r, r["at"], max(5, rest * 1.3), False)
        r["wall"] = res.get("wall_s", 0)
        r["done"] = res["status"] == "complete"

    # findings that are recorded, not repaired
    known = []
    if not violations:
        for k in plan.KNOWN:
            if k["property"] != prop:
                continue
            res = symex(b, k["entry"], k["params"], 120, 0, scratch)
            hit = False
            listed = recorded(k)
            for f in res["found"]:
                if f["id"] == k["id"] and listed:
                    ok, what = reproduces(b, case(k["entry"], k["params"], f["vals"]), f, scratch)
                    hit |= ok
                else:
                    ok, what = reproduces(b, case(k["entry"], k["params"], f["vals"]), f, scratch)
                    if ok:
                        violations.append((dict(entry=k["entry"]), f, case(k["entry"], k["params"], f["vals"]), what))
            if res["status"] == "error":
                inconclusive.append("%s: %s" % (k["entry"], res["errors"][:2]))
            if hit:
                known.append(k)
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if mismatched:
        inconclusive.append("%d sampled paths behave differently on the real code" % mismatched)

    wall = time.time() - t0
    write_evidence(prop, tier, seed, cfg, ev, violations, inconclusive, incomplete, notes, known, validated, sample_text, wall, t_build)
    for n in notes[:10]:
        print("note: " + n)
    for r, res in ev:
        print("%-22s %-22s %-9s %7.1fs paths=%d queries=%d solver=%.1fs reach=%s" % (
            r["entry"], ",".join(map(str, res["params"])), res["status"], res.get("wall_s", 0),
            res.get("paths_completed", 0) + res.get("paths_panicked", 0), res.get("solver_queries", 0),
            res.get("solver_s", 0), res.get("reach", {})))
    print("validated %d sampled paths against the real code; %.1f s in all, %.1f s of it building" % (validated, wall, t_build))
    if violations:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, (r, f, line, what) in enumerate(violations[:3]):
            path = os.path.join(d, "%s-%d.txt" % (prop, i))
            txt, dead = native(b, [line], scratch, timeout=20, verbose=True)
            with open(path, "w") as h:
                h.write("property %s\nharness %s\nexecutor: %s %s %s\nreal code: %s\n\n%s\ncase (build/native/debug/vnative FILE v, FILE holding this line):\n%s\n" % (
                    prop, r["entry"], f["kind"], f["id"], f["msg"], what, txt, line))
            print("%s: %s" % (r["entry"], what))
            print(txt.strip())
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for i in incomplete:
        print("INCOMPLETE: " + i)
    if inconclusive:
        for i in inconclusive:
            print("INCONCLUSIVE: " + i)
        return 2
    return 0


def write_evidence(prop, tier, seed, cfg, ev, violations, inconclusive, incomplete, notes, known, validated, sample_text, wall, t_build):
    tot = lambda k: sum(r.get(k, 0) for _, r in ev)
    funcs = set()
    for _, r in ev:
        funcs.update(r.get("functions", []))
    ven = sorted(plan.demangle(f) for f in funcs if "venial" in f)
    reach, asserts, panics = {}, {}, {}
    for _, r in ev:
        for k, v in r.get("reach", {}).items():
            reach[k] = reach.get(k, 0) + v
        for k, v in r.get("assert_counts", {}).items():
            asserts[k] = asserts.get(k, 0) + v
    cov = {
        "states": tot("paths_completed") + tot("paths_panicked"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": sample_text or ["none"],
        "paths_accepted_or_finished": tot("paths_completed"),
        "paths_rejected_by_panic": tot("paths_panicked"),
        "instructions_executed": tot("instructions"),
        "assertions_checked": tot("assertions"),
        "assertions_needing_the_solver": tot("assertions_by_solver"),
        "solver": "z3 4.8.12",
        "solver_queries": tot("solver_queries"),
        "solver_cache_hits": tot("cache_hits"),
        "solver_sat": tot("sat"),
        "solver_unsat": tot("unsat"),
        "solver_s": round(tot("solver_s"), 2),
        "functions_encoded": ven,
        "assertions": {"%s %s" % (k, plan.ASSERTS.get(int(k), "")): v for k, v in sorted(asserts.items())},
        "labels_reached": reach,
        "runs": [
            {"harness": r["entry"], "params": res["params"], "bounds": res["bounds"], "status": res["status"],
             "mandatory": res["mandatory"], "wall_s": res.get("wall_s", 0), "paths": res.get("paths_completed", 0) + res.get("paths_panicked", 0),
             "solver_queries": res.get("solver_queries", 0), "solver_s": res.get("solver_s", 0),
             "max_query_s": res.get("max_query_s", 0), "max_symbolic_variables": res.get("max_symbolic_variables", 0)}
            for r, res in ev
        ],
        "build_s": round(t_build, 1),
        "outside_the_bounds": plan.OUTSIDE,
        "violations_found": [{"harness": r["entry"], "kind": f["kind"], "id": f["id"], "what": what} for r, f, _, what in violations],
        "inconclusive": inconclusive,
        "incomplete": incomplete,
        "paths_given_up": tot("paths_abandoned"),
        "notes": notes[:20],
        "known_findings": [k["what"] for k in known],
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as h:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
            "wall_s": round(wall, 2), "assumptions": plan.ASSUMPTIONS,
            "violations": len(violations),
        }, h, indent=1)


if __name__ == "__main__":
    sys.exit(main())
