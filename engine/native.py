"""Compiles the current sources of the repository together with one harness."""
import os, time, subprocess, concurrent.futures as cf, tempfile
from extract import REPO, VERIF
FLAGS = ["-std=c++23", "-O1", "-g0", "-w", "-fno-access-control", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-D_GLIBCXX_ASSERTIONS",
         "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
CXX = "/usr/bin/g++-14" if os.path.exists("/usr/bin/g++-14") else "/usr/bin/g++"


class BuildError(Exception):
    pass


def build(dir, exe, harness, defines, tus, new=(), libs=()):
    """dir: scratch directory; harness: .cpp under harness/; tus: repository units (relative to src, no extension)"""
    os.makedirs(dir, exist_ok=True)

    def one(job):
        src, obj, extra = job
        p = subprocess.run([CXX, *FLAGS, *extra, "-c", src, "-o", obj], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(f"{src}: {p.stderr[-3000:]}")
        return obj
    jobs = [(f"{VERIF}/harness/{harness}.cpp", f"{dir}/harness_{exe}.o", ["-D" + d for d in defines])]
    for t in list(tus) + list(new):
        src = f"{REPO}/src/{t}.cpp"
        if not os.path.exists(src):
            continue          # a unit that was removed or renamed: new units are added by the caller
        jobs.append((src, f"{dir}/{t.replace('/', '_')}.o", []))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    out = f"{dir}/{exe}"
    p = subprocess.run([CXX, *[j[1] for j in jobs], "-o", out, *libs], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("link: " + p.stderr[-3000:])
    return out


def run(exe, prop, seed, seconds, hints, known, timeout=None):
    """returns (status, message, stats) with status in pass, fail, error"""
    f = exe + ".hints"
    d = exe + ".d"
    os.makedirs(d, exist_ok=True)
    with open(f, "w") as o:
        for x in hints:
            o.write(f"hint {x!r}\n")
        for k in known:
            o.write(f"known {k}\n")
    try:
        for n in range(20):
            try:
                p = subprocess.run([exe, prop, str(seed), str(seconds), f], capture_output=True, text=True, errors="replace",
                                   timeout=timeout or seconds + 60, cwd=d)
                break
            except OSError as e:
                if e.errno != 26 or n == 19: raise       # text file busy
                time.sleep(0.2)
    except subprocess.TimeoutExpired:
        return "error", "harness timeout", {}
    st = {"evaluations": 0, "distinct": 0, "samples": [], "known": []}
    msg, status = "", "error"
    for l in p.stdout.splitlines():
        if l.startswith("FAIL "):
            msg, status = l[5:], "fail"
        elif l == "PASS":
            status = "pass"
        elif l.startswith("STAT "):
            for kv in l[5:].split():
                k, v = kv.split("=")
                st[k] = int(v)
        elif l.startswith("SAMPLE "):
            st["samples"].append(l[7:])
        elif l.startswith("KNOWN "):
            st["known"].append(l[6:])
    if status == "error":
        msg = f"harness ended with {p.returncode}: {p.stdout[-500:]} {p.stderr[-1500:]}"
    return status, msg, st
