#!/usr/bin/env python3
"""Driver: compiles the harness units of one property from /repo's working tree,
runs their exhaustive enumerations in shards, confirms every reported violation by
replaying it alone, and writes evidence/<property>.json.
  check.py C01 [--thorough]     run a check
  check.py --replay FILE        re-run one recorded violation
"""
import array, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ETR_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
from spec import SPEC  # noqa: E402

NC = os.cpu_count() or 4
PROFILES = {
    "asan": ["-O0", "-fsanitize=address", "--param", "asan-use-after-return=0"],
    "asan1": ["-O1", "-fsanitize=address", "--param", "asan-use-after-return=0"],
    "ubsan": ["-O0", "-fsanitize=address,undefined", "--param", "asan-use-after-return=0", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=vptr,alignment"],
    "fast": ["-O1"],
    "none": [],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=165:"
           "detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:malloc_context_size=0:quarantine_size_mb=32",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=97", LC_ALL="C")


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(V, "h")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


TH = tree_hash()


def unit_name(u):
    return u["src"] + ("_" + "_".join(u.get("defs", [])) if u.get("defs") else "").replace("=", "")


class CompileError(RuntimeError):
    """A harness unit does not compile. `verdict`: the library rejects a program of the property's space (the error
    arises inside the library's headers, or in overload resolution / conversions of the statement), as opposed to a
    name the harness uses and the library no longer has."""

    def __init__(self, text, verdict):
        super().__init__(text)
        self.verdict = verdict


def compile_verdict(out):
    for l in out.splitlines():
        m = re.match(r"^(\S+?):\d+:\d+: (?:fatal )?error: (.*)$", l)
        if m:
            if re.search(r"has no member|not declared|is private|is protected|does not name|not a member|No such file", m[2]):
                return False
            return True
    return False


def compile_unit(u):
    flags = ["-std=c++20", "-g1", "-w", "-fmax-errors=3"] + PROFILES[u.get("profile", "asan")]
    flags += ["-D" + d for d in u.get("defs", [])] + u.get("flags", [])
    srcs = [os.path.join(V, "h", u["src"] + ".cpp")]
    cxx = u.get("cxx", "g++")
    key = hashlib.sha256((TH + cxx + repr(flags) + repr(srcs) + repr(u.get('rt')) + repr(u.get('ldflags'))).encode()).hexdigest()[:24]
    bd = os.path.join(V, "build")
    os.makedirs(bd, exist_ok=True)
    out = os.path.join(bd, unit_name(u) + "." + key)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cmds = []
            if u.get("rt"):  # a runtime that must not be instrumented
                cmds.append([cxx, "-std=c++20", "-O1", "-g1", "-w", "-c", os.path.join(V, "h", u["rt"] + ".cpp"),
                             "-o", out + ".rt.o"])
                cmds.append([cxx] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "h"), "-c"]
                            + srcs + ["-o", out + ".o"])
                cmds.append([cxx, out + ".o", out + ".rt.o", "-o", out + ".tmp", "-lpthread"] + u.get("ldflags", []))
            else:
                cmds.append([cxx] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "h")]
                            + srcs + ["-o", out + ".tmp", "-lpthread"])
            for c in cmds:
                p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    err = [l[:300] for l in p.stdout.splitlines() if "error" in l or "rror:" in l][:5]
                    raise CompileError("compilation of %s failed:\n%s" % (unit_name(u), "\n".join(err) or p.stdout[-1500:]),
                                       compile_verdict(p.stdout))
            for s in (".o", ".rt.o"):
                if os.path.exists(out + s):
                    os.unlink(out + s)
            os.replace(out + ".tmp", out)
    try:
        os.unlink(out + ".lock")
    except OSError:
        pass
    return out


def run_bin(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout,
                           cwd=os.path.join(V, "build"))
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


VRE = re.compile(r"^VIOL idx=(-?\d+) desc=\[(.*)\] msg=\[(.*)\]$")
DRE = re.compile(r"^DEATH idx=(-?\d+) kind=(.*)$")


def san_msg(err):
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l:
            return l[:200]
    return ""


def parse(out, err):
    viols, summ = [], None
    for l in out.splitlines():
        m = VRE.match(l)
        if m:
            viols.append((int(m[1]), m[2], m[3]))
        m = DRE.match(l)
        if m:
            viols.append((int(m[1]), "", "process died: %s %s" % (m[2], san_msg(err))))
        if l.startswith("SUMMARY "):
            summ = json.loads(l[8:])
    return viols, summ


def args_of(u, tier):
    a = list(u.get("args", []))
    if tier == "thorough":
        a.append("--thorough")
    return a


def check(prop, tier):
    t0 = time.time()
    sp = SPEC[prop]
    units = [u for u in sp["units"] if tier == "thorough" or not u.get("thorough_only")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(V, "build", "run." + prop + "." + str(os.getpid()))
    os.makedirs(work, exist_ok=True)
    # compile (longest first), run the shards as soon as a unit is there
    order = sorted(range(len(units)), key=lambda i: -units[i].get("cost", 1))
    results, errors, nocompile = {}, [], []
    cpool, rpool = ThreadPoolExecutor(NC), ThreadPoolExecutor(NC)
    timeout = 600 if tier == "quick" else 6 * 3600

    def go(i):
        u = units[i]
        try:
            exe = compile_unit(u)
        except CompileError as e:
            errors.append(str(e))
            if e.verdict:
                nocompile.append((u, str(e)))
            return
        n = u.get("shards", 1)
        if tier == "thorough":
            n = u.get("tshards", max(n, NC))
        futs = []
        for s in range(n):
            st = os.path.join(work, "st.%d.%d" % (i, s))
            futs.append((st, rpool.submit(run_bin, exe, ["--shard", str(s), str(n), "--states", st] + args_of(u, tier), timeout)))
        results[i] = (exe, n, futs)

    list(cpool.map(go, order))
    rep = []  # (unit index, shard, n, idx, desc, msg)
    tot = dict(cases=0, ran=0, transitions=0)
    counters, samples, states = {}, [], set()
    for i in sorted(results):
        exe, n, futs = results[i]
        u = units[i]
        cases = 0
        for s, (stf, f) in enumerate(futs):
            rc, out, err = f.result()
            viols, summ = parse(out, err)
            for v in viols:
                rep.append((i, s, n) + v)
            if summ is None:
                if not any(v[2].startswith("process died") for v in viols):
                    errors.append("unit %s shard %d ended with %s and no summary: %s" % (unit_name(u), s, rc, (out[-300:] + err[-600:])))
                continue
            if summ["violations"] == 0 and rc != 0:
                errors.append("unit %s shard %d: exit status %s: %s" % (unit_name(u), s, rc, err[-600:]))
            if not summ.get("complete", True):
                errors.append("unit %s shard %d: enumeration capped" % (unit_name(u), s))
            cases = max(cases, summ["cases"])
            tot["ran"] += summ["ran"]
            tot["transitions"] += summ["transitions"]
            for k, x in summ["counters"].items():
                counters[k] = counters.get(k, 0) + x
            for x in summ["samples"]:
                samples.append(x)
            if os.path.exists(stf):
                a = array.array("Q")
                with open(stf, "rb") as fh:
                    a.frombytes(fh.read())
                states.update((i, x) if False else (x ^ (i * 0x9E3779B97F4A7C15 & (2**64 - 1))) for x in a)
        tot["cases"] += cases
    shutil.rmtree(work, ignore_errors=True)

    # confirm by replay
    known = load_known(prop)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = 0
    known_hit = set()
    unconf = []
    for u, text in nocompile[:1]:
        viol += 1
        path = os.path.join(rdir, "%s-compile.json" % prop)
        with open(path, "w") as fh:
            json.dump(dict(property=prop, unit=u, compile=True, case="compilation", message=text,
                           how="bin/check.py --replay " + path), fh, indent=1)
        print("case: programs of the property's space are no longer accepted by the library\n  " + text.replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    groups = {}
    for r in rep:
        groups.setdefault((r[0], sig(r[5])), []).append(r)
    for (i, _), rs in sorted(groups.items(), key=lambda kv: kv[1][0][3]):
        new = []
        if viol >= 3:
            break
        for (i, s, n, idx, desc, msg) in sorted(rs, key=lambda r: r[3])[:40]:
            if not desc:
                rc, out, err = run_bin(results[i][0], ["--only", str(idx), "--describe"] + args_of(units[i], tier), 120)
                m = re.search(r"^CASE \d+ (.*)$", out, re.M)
                desc = m[1] if m else ""
            k = next((k for k in known if k["unit"] == unit_name(units[i]) and k["case"] == desc), None)
            if k:
                known_hit.add(k["text"])
            else:
                new.append((i, s, n, idx, desc, msg))
        for (i, s, n, idx, desc, msg) in new[:3]:
            exe = results[i][0]
            a = ["--only", str(idx)] + args_of(units[i], tier)
            ok = False
            for a in (a, ["--shard", str(s), str(n)] + args_of(units[i], tier)):
                left = (780 if tier == "quick" else 1e9) - (time.time() - t0)
                if left < 5 or (viol and left < 400):
                    break
                rc, out, err = run_bin(exe, a, min(300, left))
                v2, _ = parse(out, err)
                if any(v[0] == idx for v in v2):
                    ok = True
                    break
            if not ok:
                unconf.append("%s case %d [%s]: %s" % (unit_name(units[i]), idx, desc, msg))
                continue
            viol += 1
            if viol <= 10:
                path = os.path.join(rdir, "%s-%d.json" % (prop, viol))
                with open(path, "w") as fh:
                    json.dump(dict(property=prop, unit=units[i], args=a, case=desc, message=msg,
                                   how="bin/check.py --replay " + path), fh, indent=1)
                print("case: %s\n  %s" % (desc, msg))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            break
    for k in known:
        # a listed finding that did not show up any more is simply not printed
        if k["text"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    lvl = sp["level"]
    cov = {}
    samples = samples[:6] or ["(none)"]
    if lvl == "model_checking":
        cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["ran"],
                   samples=samples, exhaustive=True)
    else:
        cov = dict(evaluations=tot["ran"], distinct_nontrivial=len(states), rule=sp["rule"], samples=samples,
                   exhaustive=True)
    cov["cases_enumerated"] = tot["cases"]
    cov["units"] = [unit_name(u) for u in units]
    cov["bounds"] = sp.get("bounds", "")
    if counters:
        cov["counters"] = counters
    if errors:
        cov["exhaustive"] = False
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=sp.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for u in unconf:
        print("not reproduced (no verdict): " + u)
    for e in errors:
        print("ERROR: " + e)
    print("%s %s: %d cases enumerated, %d run, %d distinct states, %d transitions, %d violations, %.1fs"
          % (prop, tier, tot["cases"], tot["ran"], len(states), tot["transitions"], viol, time.time() - t0))
    if viol:
        return 1
    if errors or unconf:
        return 2
    if tot["ran"] < sp.get("min_cases", 1):
        print("ERROR: vacuous run")
        return 2
    return 0


def sig(msg):
    return re.sub(r"[-0-9.e+]+", "#", msg)[:60]


def load_known(prop):
    res = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) unit=(\S+) case=\[(.*?)\] (.*)$", l.strip())
            if m and m[1] == prop:
                res.append(dict(unit=m[2], case=m[3], text="unit=%s case=[%s] %s" % (m[2], m[3], m[4])))
    return res


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    try:
        exe = compile_unit(r["unit"])
    except CompileError as e:
        print(e)
        return 1 if e.verdict else 2
    if r.get("compile"):
        return 0
    rc, out, err = run_bin(exe, r["args"], 600)
    print(out[-4000:])
    print(err[-4000:], file=sys.stderr)
    v, _ = parse(out, err)
    return 1 if v else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--quick" in sys.argv:
        tier = "quick"
    sys.exit(check(sys.argv[1], tier))


if __name__ == "__main__":
    main()
