#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  run.py check C01 [--tier quick|thorough]   build the harness from /repo's working tree, explore, report
  run.py replay replays/C01.replay           re-run one recorded execution alone
  run.py setup                               check that the tools needed are there

A harness (harness/cNN.cpp) enumerates every execution of its parts; the exploration is split over
shards, each of which is a deterministic process. A failing execution is re-run alone before it is
reported; one that only fails after its predecessors (state leaking between executions) is
confirmed by re-running its whole shard.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = ["-I" + os.path.join(REPO, "include"), "-I/opt/vp/compat", "-I/usr/include/eigen3"]
SAN = "-fsanitize=address,bool,integer-divide-by-zero,signed-integer-overflow,shift,bounds,return,unreachable,null"
BASE = ["-std=c++20", "-g1", "-w", "-include", "memory"]
NSH = max(2, min(8, os.cpu_count() or 4))
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=12:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=6000:abort_on_error=0:quarantine_size_mb=16:malloc_context_size=2",
           UBSAN_OPTIONS="exitcode=12:halt_on_error=1:print_stacktrace=1", TSAN_OPTIONS="exitcode=12:halt_on_error=1:report_signal_unsafe=0", LC_ALL="C")
sys.path.insert(0, os.path.join(VERIF, "harness"))
import checks  # noqa: E402  per-property build settings and evidence text


def environ(spec):
    e = dict(ENV)
    if spec.get("stack"):   # also detect uses of a returned function's locals (several times slower)
        e["ASAN_OPTIONS"] += ":detect_stack_use_after_return=1"
    return e


def say(*a):
    print(*a, flush=True)


class Build:
    def __init__(self, pid, spec, work):
        self.pid, self.spec, self.work = pid, spec, work
        self.bins = []

    def one(self, b):
        out = os.path.join(self.work, b["name"])
        san = b.get("san", SAN)
        srcs = [os.path.join(VERIF, "harness", s) for s in b["src"]]
        cmd = [b.get("cxx", "g++")] + BASE + [b.get("opt", "-O1")] + (san.split() if san else []) + (["-fno-sanitize-recover=all"] if san else []) + \
              ["-I" + os.path.join(VERIF, "harness")] + ["-I" + os.path.join(VERIF, "harness", d) for d in b.get("inc", [])] + INC + b.get("flags", []) + srcs + ["-o", out] + \
              b.get("libs", ["-lflatbuffers", "-lmsgpackc"])
        if b.get("cflags"):   # flags of the compilation that must not reach the link
            i = cmd.index("-o"); obj = out + ".o"
            cc = cmd[:i] + b["cflags"] + ["-c", "-o", obj]; cmd = [cmd[0], obj] + cmd[i:]
            p = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                say("BUILD FAILED:", " ".join(cc)); say(p.stdout[-6000:])
                return None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            say("BUILD FAILED:", " ".join(cmd)); say(p.stdout[-6000:])
            return None
        return out

    def all(self):
        with ThreadPoolExecutor(8) as ex:
            r = list(ex.map(self.one, self.spec["bins"]))
        return None if None in r else r


def decode_state(path):
    try:
        d = open(path, "rb").read()
    except OSError:
        return None
    if len(d) < 68:
        return None
    part = d[:64].split(b"\0")[0].decode("ascii", "replace")
    n = struct.unpack_from("<I", d, 64)[0]
    if not part or n > 4096:
        return None
    return part + ":" + ".".join(str(c) for c in struct.unpack_from("<%dI" % n, d, 68))


def run(cmd, timeout, env):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); rc = "timeout"
    return rc, o.decode(errors="replace"), e.decode(errors="replace"), time.time() - t


REASON = {10: "disagrees with the model", 11: "does not terminate", 12: "sanitizer report", 13: "unexpected exception"}


def why(rc, out, err):
    m = re.search(r"^FAIL (\S+) ?(.*)$", out, re.M)
    if m and rc in (10, 13):
        return m.group(1), m.group(2)
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|SUMMARY: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|HANG:[^\n]*|terminate called[^\n]*\n?[^\n]*)", err)
    return None, (m.group(1) if m else "process ended with %s" % rc)


def is_fail(rc):
    return rc not in (0, 14, "timeout")


def check(pid, tier):
    t0 = time.time()
    spec = checks.CHECKS[pid]
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    thorough = ["--thorough"] if tier == "thorough" else []
    work = tempfile.mkdtemp(prefix="mc-%s-" % pid.lower())
    env = dict(environ(spec), HOME=work, TMPDIR=work)
    repdir = os.path.join(VERIF, "replays"); os.makedirs(repdir, exist_ok=True)
    try:
        bins = Build(pid, spec, work).all()
        if bins is None:
            return 2
        tb = time.time() - t0
        jobs = []
        for b, path in zip(spec["bins"], bins):
            n = b.get("shards", NSH if tier == "quick" else NSH * 4)
            for i in range(n):
                jobs.append((b, path, i, n))
        results, failed = [], []
        stop = []

        def do(j):
            b, path, i, n = j
            if stop:
                return None
            st = os.path.join(work, "%s.%d.st" % (b["name"], i))
            cmd = b.get("wrap", []) + [path, "--shard", "%d/%d" % (i, n), "--state", st, "--limit", str(b.get("limit", 25))] + thorough
            rc, o, e, dt = run(cmd, max(5, deadline - time.time()), env)
            if rc != 0:
                stop.append(1)
            return (j, rc, o, e, st)

        with ThreadPoolExecutor(NSH) as ex:
            for r in ex.map(do, jobs):
                if r is None:
                    continue
                (results if r[1] == 0 else failed).append(r)
        if failed:
            failed.sort(key=lambda r: (not is_fail(r[1]), r[0][2]))
            return report(pid, spec, failed, work, env, thorough, repdir, deadline, tier)
        res = []
        for r in results:
            m = re.search(r"^RESULT (\{.*\})$", r[2], re.M)
            if not m:
                say("harness printed no result"); return 2
            res.append(json.loads(m.group(1)))
        for line in checks.known(pid):
            say("KNOWN-FINDING: property=%s %s" % (pid, line))
        evidence(pid, spec, tier, res, time.time() - t0, tb)
        tot = lambda k: sum(r[k] for r in res)
        say("%s %s: held on everything explored: states=%d transitions=%d traces=%d (build %.0fs, total %.0fs)" % (pid, tier, tot("states"), tot("transitions"), tot("traces"), tb, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid, spec, failed, work, env, thorough, repdir, deadline, tier):
    for (b, path, i, n), rc, o, e, st in failed:
        name, msg = why(rc, o, e)
        where = name or decode_state(st)
        if not is_fail(rc):
            say("shard %s %d/%d gave no verdict: rc=%s at %s\n%s" % (b["name"], i, n, rc, where, (o + e)[-3000:]))
            continue
        say("candidate in %s shard %d/%d: %s: %s (%s)" % (b["name"], i, n, where, msg, REASON.get(rc, rc)))
        alone = None
        if where:
            # a hang is given three times its CPU budget when replayed alone
            cmd = b.get("wrap", []) + [path, "--replay", where, "--state", os.path.join(work, "replay.st"), "--limit", str(3 * b.get("limit", 25))] + thorough
            r2 = run(cmd, max(30, deadline - time.time()), env)
            if is_fail(r2[0]):
                alone = r2
        if alone is None:
            cmd = b.get("wrap", []) + [path, "--shard", "%d/%d" % (i, n), "--state", st + ".2", "--limit", str(b.get("limit", 25))] + thorough
            r3 = run(cmd, max(30, deadline - time.time()), env)
            if not is_fail(r3[0]):
                say("not reproduced: %s" % where); continue
            n3, m3 = why(r3[0], r3[1], r3[2]); where = n3 or decode_state(st + ".2") or where; msg = m3
            how = "history"; det = r3
        else:
            how = "alone"; det = alone; n3, m3 = why(det[0], det[1], det[2]); msg = m3 or msg
        rp = os.path.join(repdir, "%s.replay" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "bin": b["name"], "execution": where, "shard": [i, n], "reproduces": how, "tier": tier, "message": msg, "exit": str(det[0]),
                       "output": (det[1] + det[2])[-6000:], "how_to": "python3 run.py replay " + os.path.relpath(rp, VERIF)}, f, indent=1)
        say(msg)
        say("VIOLATION property=%s replay=%s" % (pid, rp))
        ev(pid, {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
                 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["%s %s" % (where, msg)], "exhaustive": False},
                 "wall_s": 0.0, "violations": 1})
        return 1
    say("no verdict"); return 2


def ev(pid, d):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


def evidence(pid, spec, tier, res, wall, tb):
    tot = lambda k: sum(r[k] for r in res)
    parts = {}
    for r in res:
        for k, v in r["parts"].items():
            d = parts.setdefault(k, {"executions": 0, "ops": 0})
            d["executions"] += v["executions"]; d["ops"] += v["ops"]
    samples = []
    for r in res:
        samples += r["samples"]
    # one or two samples of each part
    seen, pick = {}, []
    for s in samples:
        p = s.split(":")[0]
        if seen.get(p, 0) < 2:
            seen[p] = seen.get(p, 0) + 1; pick.append(s)
    ev(pid, {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
             "coverage": {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces"),
                          "distinct_outcomes_max_per_shard": max(r["outcomes"] for r in res), "samples": pick[:30] or samples[:10], "exhaustive": True,
                          "bound": spec["bound"], "parts": parts, "shards": len(res), "build_s": round(tb, 1)},
             "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": 0})


def replay(path):
    d = json.load(open(path)); pid = d["property"]; spec = checks.CHECKS[pid]
    work = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        b = [x for x in spec["bins"] if x["name"] == d["bin"]][0]
        exe = Build(pid, spec, work).one(b)
        if exe is None:
            return 2
        th = ["--thorough"] if d["tier"] == "thorough" else []
        args = ["--replay", d["execution"]] if d["reproduces"] == "alone" else ["--shard", "%d/%d" % tuple(d["shard"])]
        rc, o, e, _ = run(b.get("wrap", []) + [exe] + args + ["--limit", "75"] + th, 900, environ(spec))
        say((o + e)[-8000:]); say("exit", rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in ("g++", "python3"):
            if not shutil.which(t):
                say("missing", t); return 1
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    say(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main())
