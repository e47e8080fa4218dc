#!/usr/bin/env python3-vt
"""check.py <property>: decides one property on /repo's current working tree.
exit 0: held (or nothing refuted); exit 1 with a VIOLATION line: broken."""
import os, sys, time, json, re, shutil, hashlib, threading, traceback, importlib, concurrent.futures as cf
if os.environ.get("PYTHONHASHSEED") != "0":       # same order of everything in every run
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/engine", HERE + "/contracts", HERE]
os.environ.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
import extract, native
from props import PROPS, TUS

T0 = time.time()
pid = sys.argv[1]
P = PROPS[pid]
TIER = os.environ.get("VERIF_TIER", "quick")
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
THOROUGH = TIER == "thorough"
SCRATCH = f"{extract.BUILD}/run-{pid}-{os.getpid()}"


def new_units():
    base = set(open(HERE + "/engine/units.txt").read().split())
    out = []
    for root, dirs, files in os.walk(extract.REPO + "/src"):
        if "/ui" in root: continue
        for f in files:
            if f.endswith(".cpp"):
                u = os.path.relpath(os.path.join(root, f), extract.REPO + "/src")[:-4]
                if u not in base and u != "main": out.append(u)
    return sorted(out)


def known_findings():
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m[1] == pid: out.append((m[2], m[3]))
    except FileNotFoundError:
        pass
    return out


def prove():
    """contracts of the property against the extracted sources"""
    import verify
    from cxx import Program
    for m in P.get("contracts", []): importlib.import_module(m)
    sel = [c for c in verify.REG if pid in c.props]
    if not sel: return [], None
    prog = Program(extract.extract([u for u in P["tus"] if os.path.exists(f"{extract.REPO}/src/{u}.cpp")] + new_units()))
    rs = verify.run(prog, sel, tmo=(30 if THOROUGH else 8), procs=8, limit=(1500 if THOROUGH else P.get("limit", 150)))
    return rs, prog


def norm_hash(path):
    """hash of a source file without comments and layout"""
    t = open(path, errors="replace").read()
    t = re.sub(r'("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\')|//[^\n]*|/\*.*?\*/', lambda m: m[1] or " ", t, flags=re.S)
    return hashlib.sha256(re.sub(r"\s+", " ", t).strip().encode()).hexdigest()[:20]


def source_state():
    """{file: hash} of the sources; headers together"""
    out = {}; hpp = []
    for root, dirs, files in os.walk(extract.REPO + "/src"):
        if "/ui" in root: continue
        for f in files:
            p = os.path.join(root, f); rel = os.path.relpath(p, extract.REPO + "/src")
            if f.endswith(".cpp"): out[rel] = norm_hash(p)
            elif f.endswith(".hpp"): hpp.append(rel + norm_hash(p))
    out["headers"] = hashlib.sha256("\n".join(sorted(hpp)).encode()).hexdigest()[:20]
    return out


def newly_undischarged(rs):
    """functions whose obligations were all discharged on the recorded sources, whose sources have changed, and which now have an undischarged obligation"""
    try: base = json.load(open(HERE + "/contracts/baseline.json"))
    except FileNotFoundError: return []
    cur = source_state()
    proved = {tuple(x) for x in base["proved"]}
    out = []
    for r in rs:
        if r["status"] in ("proved", "bounded") or not r["failed"] or r.get("quiet") or (r["contract"], r["fn"]) not in proved: continue
        fs = [os.path.relpath(f, extract.REPO + "/src") if f.startswith("/") else f for f in r["files"]]
        fs = [f for f in fs if f.endswith(".cpp")] + ["headers"]
        if any(base["sources"].get(f) != cur.get(f) for f in fs): out.append(r)
    return out


def literals(rs):
    """numbers of the verifier's models and of the files of functions whose obligations failed"""
    vals = []
    files = set()
    for r in rs:
        if r["status"] in ("proved", "bounded"): continue
        fs = list(r["failed"]) + list((r.get("bounded") or {}).get("failed", []))
        for f in fs: vals += [v for _, v in f["values"]]
        if r["line"]: files.add(r["line"].rsplit(":", 1)[0])
    for f in files:
        for p in (f, extract.REPO + "/src/" + f, extract.REPO + "/" + f):
            if os.path.isfile(p):
                for m in re.findall(r"(?<![\w.])\d+(?:\.\d*)?(?:e[-+]?\d+)?", open(p, errors="replace").read()):
                    try: vals.append(float(m))
                    except ValueError: pass
                break
    out = []
    for v in vals:
        for x in (v, -v, v + 1, v - 1):
            if abs(x) < 1e9 and x not in out: out.append(x)
    return out[:400]


def harness(exe, hints, known, procs, secs, base):
    exes = [shutil.copy(exe, f"{exe}.{base}.{i}") for i in range(procs)]      # before any process is started
    with cf.ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(native.run, exes[i], pid, SEED * 1000 + base + i, secs, hints if i % 2 else hints[:len(hints) // 2], known, secs + 60) for i in range(procs)]
        return [f.result() for f in fs]


def write_replay(d):
    rd = HERE + "/evidence/replays"
    os.makedirs(rd, exist_ok=True)
    p = f"{rd}/{pid}.json"
    json.dump(d, open(p, "w"), indent=1)
    return p


def main():
    os.makedirs(SCRATCH, exist_ok=True)
    exe, berr = None, None
    box = {}

    def b():
        try: box["exe"] = native.build(SCRATCH, pid, P["harness"], ["P_" + pid], P["native"], new_units(), P.get("libs", ()))
        except native.BuildError as e: box["err"] = str(e)
        except Exception as e: box["err"] = f"{type(e).__name__}: {e}"
    th = None
    if P.get("harness"):
        th = threading.Thread(target=b); th.start()
    notes = []
    try:
        rs, prog = prove()
    except extract.ExtractError as e:
        rs = []; notes.append("extraction failed: " + str(e)[:500])
    except Exception as e:
        rs = []; notes.append("verifier error: " + traceback.format_exc()[-800:])
    tp = time.time() - T0
    if th: th.join()
    kf = known_findings()
    stats = {"evaluations": 0, "distinct": 0, "samples": [], "known": set()}
    hfail = None
    hrun = False
    if th:
        if "exe" not in box:
            notes.append("harness not built: " + box.get("err", "")[:800])
        else:
            allproved = rs and all(r["status"] in ("proved",) for r in rs)
            nofail = all(r["status"] in ("proved", "bounded") or r["contract"] in P.get("undecided_on_base", ()) for r in rs) and not notes
            plans = [(6, P.get("secs", 4), 0)] if not THOROUGH else [(8, 150, 0)]
            if not nofail and rs: plans = [(8, 6, 0), (8, 20, 100)] if not THOROUGH else [(8, 60, 0), (8, 300, 100)]
            hints = literals(rs)
            for (n, s, base) in plans:
                for st, msg, z in harness(box["exe"], hints, [k for k, _ in kf], n, s, base):
                    if z:
                        stats["evaluations"] += z["evaluations"]; stats["distinct"] += z["distinct"]
                        stats["samples"] += z["samples"][:1]; stats["known"] |= set(z["known"])
                    if st == "pass": hrun = True
                    elif st == "fail":
                        hrun = True
                        hfail = hfail or msg
                    else: notes.append("harness: " + msg)
                if hfail: break
    again = newly_undischarged(rs) if not hfail else []
    if again and not THOROUGH:      # more solver time before reporting without an input
        import verify
        sel = [c for c in verify.REG if pid in c.props and any(r["contract"] == c.name for r in again)]
        rs2 = verify.run(prog, sel, tmo=25, procs=8, limit=240)
        rs = [r for r in rs if not any(r["contract"] == x["contract"] and r["fn"] == x["fn"] for x in rs2)] + rs2
        tp = time.time() - T0
    failed = [r for r in rs if r["status"] == "failed"]
    failed += [r for r in newly_undischarged(rs) if r not in failed]
    violation = None
    if hfail:
        violation = write_replay({"property": pid, "failing_input": hfail, "replayed_against": "compiled current sources, harness/%s.cpp -DP_%s" % (P["harness"], pid), "seed": SEED,
                                  "failed_obligations": [{"function": r["fn"], "at": r["line"], "contract": r["contract"], "obligations": r["failed"]} for r in rs if r["status"] in ("failed", "undecided")]})
        line = f"VIOLATION property={pid} replay={violation}"
    elif failed:
        violation = write_replay({"property": pid, "failing_input": None,
                                  "failed_obligations": [{"function": r["fn"], "at": r["line"], "contract": r["contract"], "mode": r["mode"], "obligations": r["failed"]} for r in failed]})
        line = f"VIOLATION property={pid} replay={violation} no-failing-input-found"
    obl = sum(r["obligations"] for r in rs); dis = sum(r["discharged"] for r in rs)
    by = {}
    for r in rs:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    used = sorted({u for r in rs for u in r["used"]} - {r["contract"] for r in rs})
    trusted = ["engine/exporter.cpp (clang 18 AST of the current sources), engine/sym.py (symbolic semantics of the C++ subset), z3 4.x, cvc5 1.1.2",
               "libstdc++ contracts in engine/lib.py: " + (", ".join(sorted({l for r in rs for l in r["lib"]})) or "none used")]
    ass = ["double arithmetic is treated as real arithmetic (rounding, NaN and infinities are outside the proof; the harness runs the real doubles)",
           "allocation does not fail; pre-existing objects reached through different pointers of different types do not alias"] + P.get("assumptions", [])
    if used: ass.append("callee contracts assumed here and discharged under their own property: " + ", ".join(used))
    inl = sorted({i for r in rs for i in r["inlined"]})
    cov = {"obligations": obl, "discharged": dis, "back_ends": by, "solver_seconds": round(sum(r["solver_s"] for r in rs), 2), "proof_wall_seconds": round(tp, 1),
           "functions_under_contract": [{"function": r["fn"], "at": r["line"], "contract": r["contract"], "status": r["status"], "mode": r["mode"], "obligations": r["obligations"],
                                         "discharged": r["discharged"], "paths": r["paths"], "loop_invariants": r["invariants"],
                                         **({"why": r["why"]} if r["why"] else {})} for r in rs],
           "functions_inlined": inl, "checker_cmd": f"python3-vt check.py {pid}", "trusted_base": trusted,
           "evaluations": stats["evaluations"], "distinct_nontrivial": stats["distinct"], "rule": P.get("rule", "executable oracle of the property on generated inputs; a case is non-trivial when its generated description was not seen before in the same process"),
           "samples": stats["samples"][:5] or ["none"], "notes": notes}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump({"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": P["level"], "coverage": cov, "assumptions": ass,
               "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    for r in rs:
        if r["status"] != "proved": print(f"{r['status']}: {r['contract']} ({r['fn']} {r['line']}) {r['why'][:300]}" + "".join("\n   " + f["name"] + " [" + f["status"] + "]" for f in r["failed"]))
    for n in notes: print("note:", n)
    print(f"{pid}: {dis}/{obl} obligations discharged over {len(rs)} functions in {tp:.1f} s; {stats['evaluations']} harness evaluations; {time.time() - T0:.1f} s")
    for k, d in kf:
        if k in stats["known"]: print(f"KNOWN-FINDING: property={pid} {d}")
    if violation:
        if hfail: print("failing input:", hfail[:2000])
        print(line)
        return 1
    return 0


try:
    rc = main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
sys.stdout.flush()
os._exit(rc)
