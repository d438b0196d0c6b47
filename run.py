#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code.

  run.py --property P01 --tier quick|thorough      one check
  run.py --setup                                   build engine and warm the IR/native caches
"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import registry  # noqa: E402

NCPU = build.NCPU


def merge_reports(rs):
    o = None
    for r in rs:
        if o is None:
            o = r
            continue
        for k, v in r.items():
            if k in ("wall_s", "solver_max_s"):
                o[k] = max(o[k], v)
            elif isinstance(v, (int, float)):
                o[k] = o.get(k, 0) + v
            elif isinstance(v, dict):
                for a, b in v.items():
                    o[k][a] = o[k].get(a, 0) + b
            elif k == "functions_symbolic":
                o[k] = sorted(set(o[k]) | set(v))
            elif isinstance(v, list):
                o[k] = o[k] + v
    return o


def run_entry(eng, mod, ent, tier, work):
    name = ent["name"]
    out = os.path.join(work, name + ".json")
    q = tier == "quick"
    t = ent.get("time", 60) if q else ent.get("ttime", ent.get("time", 60) * 4)
    jobs = ent.get("jobs", 1)
    cmd = [eng, "--module=" + mod, "--entry=harness_" + ent.get("fn", name), "--out=" + out,
           "--replay-dir=" + work, "--prefix=" + name + "_", "--max-time=%d" % t,
           "--hang-violation", "--samples=%d" % (ent.get("samples", 6)), "--jobs=%d" % jobs,
           "--solver-timeout=%d" % ent.get("solver_timeout", 60000)]
    cmd += [o.replace("@", ent["_table"]) if o.startswith("--table=") else o for o in ent.get("opts", [])]
    params = dict(ent.get("params", {}))
    if not q:
        params.update(ent.get("tparams", {}))
    for k, v in params.items():
        cmd.append("--param=%s=%d" % (k, v))
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t * 2 + 90)
        log = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = "engine did not stop in time", 99
    rep = None
    try:
        rep = json.load(open(out))
        if "workers" in rep:
            lost = rep["lost_workers"]
            rs = [json.load(open(f)) for f in sorted(glob.glob(out + ".w*"))]
            rep = merge_reports(rs) if rs else None
            if rep is not None:
                rep["lost_workers"] = lost
    except Exception as e:
        log += "\nreport unreadable: %r" % e
    return dict(entry=name, ent=ent, rc=rc, log=log, report=rep, wall=time.time() - t0, params=params, limit=t)


def replay(exe, path, timeout=20):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    d = tempfile.mkdtemp(prefix="jppreplay")
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "replay did not terminate within %d s" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", l)
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, keep=False, only=None, verbose=False):
    t0 = time.time()
    c = registry.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(VERIF, "build", "replay", prop)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir)
    entries = [e for e in c["entries"] if (tier == "thorough" or not e.get("thorough_only")) and (not only or e["name"] in only)]
    fatal = []
    with cf.ThreadPoolExecutor(NCPU) as pool:
        eng = build.engine()
        # one module per (harness files, groups)
        mods, exes = {}, {}
        for e in entries:
            key = (tuple(e.get("harness", c.get("harness"))), tuple(e.get("groups", c.get("groups"))))
            e["_key"] = key
            mods.setdefault(key, None)
        for key in mods:
            mods[key] = build.ir_module(list(key[0]), list(key[1]), pool)
        for e in entries:
            if any(o.startswith("--table=") for o in e.get("opts", [])):
                e["_table"] = build.class_table(pool)
        tb = time.time() - t0
        # symbolic runs first, native build alongside
        slots = max(1, NCPU)
        sem_pool = cf.ThreadPoolExecutor(slots)
        futs = [sem_pool.submit(run_entry, eng, mods[e["_key"]], e, tier, repdir) for e in
                sorted(entries, key=lambda e: -e.get("time", 60) * e.get("jobs", 1))]
        for key in mods:
            exes[key] = build.native_binary(list(key[0]), list(key[1]), pool)
        results = [f.result() for f in futs]
        sem_pool.shutdown()
    known = load_known()
    nviol = 0
    unconfirmed, incomplete, notes, ev_entries = [], [], [], []
    tot = dict(states=0, transitions=0, queries=0, solver_s=0.0, checks=0, checks_solver=0, unknown=0)
    validated, mism = 0, []
    samples = []
    funcs = set()
    seen_known = set()
    vlines = []
    for r in results:
        rep, ent = r["report"], r["ent"]
        exe = exes[ent["_key"]]
        if rep is None:
            fatal.append("%s: engine failed rc=%s: %s" % (r["entry"], r["rc"], r["log"][-1500:]))
            continue
        if verbose and r["log"].strip():
            print(r["log"])
        done_full = not (rep["pending"] or rep["budget"] or rep["unsupported"] or rep.get("lost_workers"))
        seen_msgs = set()
        for v in rep["violations"]:
            rc, outp = replay(exe, v["replay"])
            if rc == 0 or rc == 42:
                unconfirmed.append(dict(entry=r["entry"], kind=v["kind"], msg=v["msg"], where=v["where"], inputs=v["inputs"][:300],
                                        native=outp[-300:]))
                continue
            nat = outp.strip().splitlines()
            headline = next((l for l in nat if "check-failed" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l
                             or "terminate" in l), nat[-1] if nat else str(rc))
            key = "%s: %s" % (r["entry"], v["msg"])
            kf = [k for k in known if k[0] == prop and k[1] and k[1] in key + " @ " + v["where"]]
            if kf:
                if kf[0] not in seen_known:
                    seen_known.add(kf[0])
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][2]))
                continue
            nviol += 1
            if key in seen_msgs:
                continue
            seen_msgs.add(key)
            with open(v["replay"], "a") as f:
                f.write("# %s: %s at %s\n# native: %s\n" % (v["kind"], v["msg"], v["where"], headline))
                for l in v["stack"].splitlines():
                    f.write("#   %s\n" % l)
            vlines.append("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("-- %s: %s (%s)\n   at %s\n   inputs %s\n   native replay: %s" %
                  (r["entry"], v["msg"], v["kind"], v["where"], v["inputs"][:400], headline[:300]))
        for sfile, exp in rep["samples"]:
            rc, outp = replay(exe, sfile)
            m = re.search(r"REPLAY ok observed (.*)", outp)
            got = m.group(1).strip() if m else None
            if rc == 0 and got == exp.strip():
                validated += 1
                if len(samples) < 6:
                    ins = [l.split() for l in open(sfile) if l.startswith("sym ")]
                    samples.append(dict(entry=r["entry"], inputs={"%s#%d" % (l[1], i): (l[3] if len(l) > 3 else "") for i, l in enumerate(ins)},
                                        observed=exp.strip()[:200]))
            elif rc == 42:
                pass
            else:
                mism.append(dict(entry=r["entry"], file=sfile, expected=exp, got=got, rc=str(rc), out=outp[-300:]))
        missing = [l for l in ent.get("reach", ["end"]) if not rep["reach"].get(l)]
        if missing and not rep["violations"]:
            if done_full:
                fatal.append("%s: vacuous, never reached %s (paths %d, notes %s)" % (r["entry"], missing, rep["paths"], rep["notes"]))
            else:
                incomplete.append("%s: did not reach %s before the limit" % (r["entry"], missing))
        if not done_full:
            incomplete.append("%s: %d paths finished, %d pending, %d over budget, %d unsupported %s" % (
                r["entry"], rep["completed"], rep["pending"], rep["budget"], rep["unsupported"],
                list(rep["notes"])[:2] if rep["notes"] else ""))
        tot["states"] += rep["paths"]
        tot["transitions"] += rep["instructions"]
        for k in ("queries", "solver_s", "checks", "checks_solver", "unknown"):
            tot[k] += rep[k]
        funcs |= set(rep["functions_symbolic"])
        ev_entries.append(dict(entry=r["entry"], what=ent.get("what", ""), bounds=ent.get("bounds", ""), params=r["params"],
                               paths=rep["paths"], completed=rep["completed"], assumed_away=rep["assumed_away"],
                               budget=rep["budget"], unsupported=rep["unsupported"], pending=rep["pending"], forks=rep["forks"],
                               instructions=rep["instructions"], checks=rep["checks"], checks_constant=rep["checks_constant"],
                               checks_decided_by_solver=rep["checks_solver"], queries=rep["queries"], z3_calls=rep["z3_calls"],
                               sat=rep["sat"], unsat=rep["unsat"], unknown=rep["unknown"], solver_s=round(rep["solver_s"], 3),
                               solver_max_s=round(rep["solver_max_s"], 3), wall_s=round(r["wall"], 2), limit_s=r["limit"],
                               reach=rep["reach"], exhausted=done_full))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=validated,
                            samples=samples,
                            meaning="states = symbolic paths (each stands for every input satisfying its path condition); transitions = IR instructions interpreted over them; traces_validated = sampled path models re-run on a sanitised native build of the same sources with equal observations",
                            exhaustive=not incomplete and not fatal,
                            queries_discharged=tot["queries"], solver_s=round(tot["solver_s"], 3), solver_unknown=tot["unknown"],
                            assertions_evaluated=tot["checks"], assertions_decided_by_solver=tot["checks_solver"],
                            functions_encoded=sorted(funcs), entries=ev_entries, incomplete=incomplete,
                            unconfirmed=unconfirmed, trace_mismatches=mism, errors=fatal),
              assumptions=c.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    only or json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d instructions, %d assertions (%d by solver), %d queries, solver %.1fs, %d traces validated, build %.1fs, wall %.1fs" % (
        prop, tier, tot["states"], tot["transitions"], tot["checks"], tot["checks_solver"], tot["queries"], tot["solver_s"],
        validated, tb, time.time() - t0))
    for e in ev_entries if verbose else []:
        print("   %-28s paths %-6d done %-6d assumed %-5d wall %-6.1f solver %-6.1f(max %.1f) unk %d reach %s%s" % (
            e["entry"], e["paths"], e["completed"], e["assumed_away"], e["wall_s"], e["solver_s"], e["solver_max_s"], e["unknown"],
            e["reach"], "" if e["exhausted"] else "  INCOMPLETE"))
    for i in incomplete:
        print("incomplete: " + i[:400])
    for u in unconfirmed:
        print("unconfirmed (not reported): %s" % json.dumps(u)[:800])
    for m in mism:
        print("trace mismatch: %s" % json.dumps(m)[:800])
    for l in vlines:
        print(l)
    for f in fatal:
        print("error: " + f)
    if nviol:
        return 1
    return 2 if fatal else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            print(build.engine())
            build.class_table(pool)
            done = set()
            for p, c in registry.CHECKS.items():
                for e in c["entries"]:
                    key = (tuple(e.get("harness", c.get("harness"))), tuple(e.get("groups", c.get("groups"))))
                    if key in done:
                        continue
                    done.add(key)
                    build.ir_module(list(key[0]), list(key[1]), pool)
                    build.native_binary(list(key[0]), list(key[1]), pool)
        return 0
    try:
        return check(a.property, a.tier, only=a.only.split(",") if a.only else None, verbose=a.v)
    except build.BuildError as e:
        print("error: build failed\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
