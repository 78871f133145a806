"""Runner shared by all checks.

A property module (props/<id>.py) provides
  ENTROPY        number of bytes one case is decoded from
  RULE           when a case counts as non-trivial (text)
  gen(src, tier) -> case      JSON-able description of one case (pure)
  run(case, st)  -> None      executes it against the code under test and
                              raises Violation when the property fails;
                              st.nontrivial / st.tag(...) classify the case
  BUDGET         {"quick": cases, "thorough": cases} over all shards
  FIXED          optional list of cases run before the generated ones
  EXHAUSTIVE     optional function(tier) -> iterable of cases run as well

Every case is executed in a process forked for it, so that no state leaks from
one case to the next, a crash or an exit of the code under test is observed
instead of ending the check, and a replay sees what the search saw."""

import ctypes
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 40          # CPU seconds one case may use (typical: 0.01)
WALL_LIMIT = 240        # wall seconds: inconclusive beyond this
SHARDS = 8
TIME_CAP = {"quick": 170, "thorough": 3000}  # wall seconds of search, soft stop


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the property's domain."""


def fail(msg):
    raise Violation(msg)


class Stats:
    def __init__(self):
        self.nontrivial = False
        self.tags = {}
        self.units = 0      # oracle comparisons inside the case

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n


def _grow(mod, case):
    """Every third case starts in a process that has already used a larger
    universe (decided by the case itself, so that a replay sees the same)."""
    if getattr(mod, "NO_PREIMPORT", False) or getattr(mod, "NO_GROW", False):
        return 0
    h = int(case_key(case)[:6], 16)
    if h % 3:
        return 0
    import _graphillion
    k = 1 + h // 3 % 40
    _graphillion.setset([set([k])])
    return k


def _limit(mod, name, default, case):
    x = getattr(mod, name, default)
    return x(case) if callable(x) else x


def _child(mod, case, fd):
    st = Stats()
    try:
        soft = resource.getrusage(resource.RUSAGE_SELF)
        used = int(soft.ru_utime + soft.ru_stime)
        lim = used + _limit(mod, "CPU_LIMIT", CPU_LIMIT, case)
        resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not os.environ.get("VERIF_ASAN"):
            gb = _limit(mod, "MEM_GB", 6, case)
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        out = ("ok", "")
        grown = _grow(mod, case)
        if os.environ.get("MALLOC_PERTURB_") and int(case_key(case)[6:8], 16) & 1:
            # half of the cases run with memory as the allocator hands it out, half with it filled
            ctypes.CDLL(None).mallopt(-6, 0)
        try:
            mod.run(case, st)
        except Violation as e:
            out = ("fail", str(e) + (" [after a collection over %d elements was made]" % grown if grown else ""))
        except Skip as e:
            out = ("skip", str(e))
        except BaseException:
            tb = traceback.format_exc()
            out = ("fail", "unexpected exception\n" + tb[-3000:])
        data = pickle.dumps((out, st.nontrivial, st.tags, st.units))
    except BaseException:
        data = pickle.dumps((("fail", "harness: " + traceback.format_exc()), False, {}, 0))
    try:
        os.write(fd, data) if len(data) < 60000 else _write_all(fd, data)
    finally:
        os._exit(0)


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def execute(mod, case):
    """Runs one case in a forked child; -> (status, message, nontrivial, tags, units)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            n = os.open(os.devnull, os.O_RDWR)
            os.dup2(n, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(n, 2)
        except OSError:
            pass
        _child(mod, case, w)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("inconclusive", "wall limit", False, {}, 0)
    if buf:
        try:
            (s, msg), nt, tags, units = pickle.loads(buf)
            return (s, msg, nt, tags, units)
        except Exception:
            pass
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGKILL:
            return ("inconclusive", "killed", False, {}, 0)
        if sig == signal.SIGXCPU and _limit(mod, "TIMEOUT_OK", False, case):
            return ("inconclusive", "CPU limit", False, {}, 0)
        if sig == signal.SIGXCPU:
            return ("fail", "no answer within %d CPU seconds on a small input"
                    % _limit(mod, "CPU_LIMIT", CPU_LIMIT, case), True, {}, 0)
        return ("fail", "the process died with signal %d (%s)" % (sig, signal.Signals(sig).name), True, {}, 0)
    return ("fail", "the process exited with status %d inside the library" % os.WEXITSTATUS(status), True, {}, 0)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def _int_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


# ---------------------------------------------------------------- shard side

def shard_main(pid_, tier, seed, shard, out_path, deadline):
    sys.path.insert(0, HERE)
    mod = importlib.import_module("props." + pid_)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as hst
    from src import Src
    if not getattr(mod, "NO_PREIMPORT", False):
        import graphillion  # noqa: F401  (loaded once; every case still runs in its own fork)

    res = dict(evals=0, keys=set(), tags={}, samples=[], units=0, skips=0,
               inconclusive=0, failure=None, nontrivial=0, complete=True)

    def note(case, r):
        s, msg, nt, tags, units = r
        res["evals"] += 1
        res["units"] += units
        if s == "skip":
            res["skips"] += 1
            return
        if s == "inconclusive":
            res["inconclusive"] += 1
            return
        for k, v in tags.items():
            res["tags"][k] = res["tags"].get(k, 0) + v
        if nt:
            key = case_key(case)
            if key not in res["keys"]:
                res["keys"].add(key)
                if len(res["samples"]) < 3 and len(res["keys"]) % 7 == 1:
                    res["samples"].append(case)

    best = [None, None]

    def save():
        tmp = out_path + ".tmp"
        with open(tmp, "wb") as fp:
            pickle.dump(res, fp)
        os.rename(tmp, out_path)

    def finish():
        if best[0] is not None:
            res["failure"] = dict(case=best[0], message=best[1])
        save()

    # fixed and exhaustive cases, dealt to the shards
    det = list(getattr(mod, "FIXED", []))
    ex = getattr(mod, "EXHAUSTIVE", None)
    if ex:
        det += list(ex(tier))
    for i, case in enumerate(det):
        if i % SHARDS != shard:
            continue
        if time.time() > deadline:
            res["complete"] = False
            break
        r = execute(mod, case)
        note(case, r)
        if r[0] == "fail":
            best[:] = [case, r[1]]
            finish()
            return

    total = mod.BUDGET[tier]
    per = (total + SHARDS - 1) // SHARDS
    chunk = max(1, min(200, per))
    done = 0
    k = 0
    while done < per and best[0] is None:
        if time.time() > deadline:
            res["complete"] = False
            break
        n = min(chunk, per - done)
        first_fail = [None]

        def body(data):
            now = time.time()
            if first_fail[0] is None and now > deadline:
                res["complete"] = False
                return
            if first_fail[0] is not None and now - first_fail[0] > 45:
                return              # shrinking budget used up
            case = mod.gen(Src(data), tier)
            if case is None:
                res["skips"] += 1
                return
            r = execute(mod, case)
            if first_fail[0] is None:
                note(case, r)
            if r[0] == "fail":
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                    finish_tmp = dict(case=case, message=r[1])
                    res["failure"] = finish_tmp
                    save()
                best[:] = [case, r[1]]
                # one bug class while shrinking
                raise Violation("property fails")

        test = given(hst.binary(min_size=mod.ENTROPY, max_size=mod.ENTROPY))(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        phases=(Phase.generate, Phase.shrink),
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(_int_seed(seed, pid_, shard, k))(test)
        try:
            test()
        except BaseException as e:
            if best[0] is None:
                traceback.print_exc()
                res["error"] = traceback.format_exc()
                break
        done += n
        k += 1
    finish()


# ----------------------------------------------------------- supervisor side

def load_known(pid_):
    """Open findings of a property: lines
    `finding: property=<id> replay=<file> <what fails>` of KNOWN_FINDINGS.txt
    (lines starting with `fixed:` are a record only and suppress nothing)."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid_:
                    out.append(dict(replay=w[2].split("=", 1)[1], what=w[3].strip()))
    return out


def setup_paths(lib):
    for p in (os.path.join(REPO), lib):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    os.environ["PYTHONPATH"] = lib + ":" + REPO


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--budget", type=int)
    a = ap.parse_args(argv)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = _int_seed(os.environ["VERIF_SEED"]) % (1 << 31)
    sys.path.insert(0, HERE)
    if a.shard is not None:
        mod = importlib.import_module("props." + a.property)
        if a.budget:
            mod.BUDGET = {"quick": a.budget, "thorough": a.budget}
        shard_main(a.property, a.tier, seed, a.shard, a.out, a.deadline)
        return 0

    import build
    t0 = time.time()
    pid_ = a.property
    asan = pid_ in ASAN_CHECKS
    lib = build.build(sanitize=asan)
    env = dict(os.environ)
    env.update(PYTHONPATH=lib + ":" + REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=str(seed % 4294967295), OMP_NUM_THREADS="1", OMP_WAIT_POLICY="PASSIVE",
               MPLBACKEND="Agg", VERIF_LIB=lib, OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", LC_ALL="C.UTF-8")
    if asan:
        rt = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        rt2 = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=rt + ":" + rt2, VERIF_ASAN="1", PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0")
    if not asan and pid_ not in MEMORY_CHECKS:
        env["MALLOC_PERTURB_"] = "165"      # memory that was never written does not read as zero
    if pid_ in MEMORY_CHECKS:
        env.update(PYTHONMALLOC="malloc", LD_PRELOAD=build.build_countmem())
    if pid_ in NATIVE_CHECKS:
        env["VERIF_NATIVE"] = build.build_native()
    env.setdefault("TMPDIR", "/tmp")
    scratch = os.path.join(build.WORK, "run-%s-%d" % (pid_, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env["VERIF_SCRATCH"] = scratch
    exe = [sys.executable, os.path.join(HERE, "main.py")]

    def replay(case_file):
        r = subprocess.run(exe + [pid_, "--replay", case_file], env=dict(env, VERIF_REPLAYING="1"),
                           stdout=subprocess.PIPE, text=True)
        return r.stdout

    try:
        if a.replay:
            if not env.get("VERIF_REPLAYING") and not os.environ.get("VERIF_REPLAYING"):
                out = replay(os.path.abspath(a.replay))
                print(out, end="")
                return 1 if "REPLAY: fail" in out else 0
            mod = importlib.import_module("props." + pid_)
            with open(a.replay) as fp:
                d = json.load(fp)
            r = execute(mod, d["case"])
            print("REPLAY: %s %s" % (r[0], r[1]))
            return 0
        return supervise(a, pid_, seed, env, exe, scratch, replay, t0)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


ASAN_CHECKS = {"P24"}
NATIVE_CHECKS = {"P24", "P25", "P28"}     # use native.cc
MEMORY_CHECKS = {"P25"}     # every block comes from malloc and is counted


def supervise(a, pid_, seed, env, exe, scratch, replay, t0):
    sys.path.insert(0, HERE)
    setup_paths(env["VERIF_LIB"])
    rule = title = ""
    # metadata of the module is read in a helper process, so that nothing of
    # the code under test is loaded here
    meta = subprocess.run([sys.executable, "-c",
                           "import sys,json;sys.path.insert(0,%r);import importlib;"
                           "m=importlib.import_module('props.%s');"
                           "print('META'+json.dumps(dict(rule=m.RULE,budget=m.BUDGET,note=getattr(m,'NOTE',''),assume=getattr(m,'ASSUME',[]))))"
                           % (HERE, pid_)], env=env, stdout=subprocess.PIPE, text=True)
    line = [l for l in meta.stdout.splitlines() if l.startswith("META")]
    known = load_known(pid_)
    violations = []
    results = []
    if not line:
        # the package does not even import: no property of it holds
        path = save_replay(pid_, dict(kind="import", case=None, message="the package cannot be imported"))
        violations.append((path, "the package cannot be imported"))
        m = dict(rule="", budget={}, note="", assume=[])
    else:
        m = json.loads(line[0][4:])
        deadline = time.time() + TIME_CAP[a.tier]
        procs = []
        for s in range(SHARDS):
            out = os.path.join(scratch, "shard%d" % s)
            cmd = exe + [pid_, "--tier", a.tier, "--shard", str(s), "--out", out,
                         "--deadline", repr(deadline)]
            if a.budget:
                cmd += ["--budget", str(a.budget)]
            procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL), out))
        failed = None
        fail_seen = None
        while True:
            alive = [p for p, _ in procs if p.poll() is None]
            if not alive:
                break
            if failed is None:
                for p, out in procs:
                    if p.poll() is not None and os.path.exists(out):
                        with open(out, "rb") as fp:
                            res = pickle.load(fp)
                        if res["failure"]:
                            failed = res["failure"]
                if failed:
                    for p in alive:
                        p.kill()
            hard = deadline + 420
            if time.time() > hard:
                for p in alive:
                    p.kill()
            time.sleep(0.1)
        err = None
        for p, out in procs:
            if os.path.exists(out):
                with open(out, "rb") as fp:
                    res = pickle.load(fp)
                results.append(res)
                if res.get("error"):
                    err = res["error"]
                if res["failure"] and failed is None:
                    failed = res["failure"]
        if failed:
            path = save_replay(pid_, dict(property=pid_, seed=seed, tier=a.tier, **failed))
            # replay: 3 of (at most) 8 attempts have to fail
            bad = 0
            last = ""
            for i in range(8):
                o = replay(path)
                if "REPLAY: fail" in o:
                    bad += 1
                    last = o
                if bad == 3 or (i >= 2 and bad == 0):
                    break
            if bad >= 3:
                violations.append((path, last.strip()))
            else:
                print("note: a failure did not reproduce (%d of its replays failed); "
                      "counted as inconclusive: %s" % (bad, failed["message"][:500]))
        if err and not violations:
            print("error in the check itself:\n" + err)
            return 2
        if not results:
            print("error: no shard reported")
            return 2
    # known findings
    known_lines = []
    for k in known:
        o = replay(os.path.join(VERIF, k["replay"]))
        if "REPLAY: fail" in o:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid_, k["what"]))
    # evidence
    keys = set()
    tags = {}
    samples = []
    tot = dict(evals=0, units=0, skips=0, inconclusive=0)
    complete = True
    for r in results:
        keys |= r["keys"]
        for k in tot:
            tot[k] += r[k]
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        samples += r["samples"]
        complete = complete and r["complete"]
    ev = dict(property=pid_, tier=a.tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["evals"], distinct_nontrivial=len(keys),
                            rule=m["rule"],
                            samples=[json.dumps(s, default=str)[:1500] for s in samples[:8]] or ["(none)"],
                            oracle_comparisons=tot["units"], skipped=tot["skips"],
                            inconclusive=tot["inconclusive"], planned=m["budget"].get(a.tier, 0),
                            budget_completed=complete,
                            classes=dict(sorted(tags.items()))),
              assumptions=m["assume"] or ["the reference oracle in /verif/harness is right",
                                          "absence of a violation is not proved: only the generated cases were explored"],
              wall_s=round(time.time() - t0, 2),
              violations=[dict(replay=p, message=t[:2000]) for p, t in violations])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid_ + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for l in known_lines:
        print(l)
    print("%s %s: %d cases, %d distinct non-trivial, %d comparisons, %d inconclusive, %.1fs%s"
          % (pid_, a.tier, tot["evals"], len(keys), tot["units"], tot["inconclusive"],
             time.time() - t0, "" if complete else " (time cap reached)"))
    if violations:
        for p, t in violations:
            print(t[:3000])
            print("VIOLATION property=%s replay=%s" % (pid_, p))
        return 1
    return 0


def save_replay(pid_, d):
    h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:12]
    p = os.path.join(VERIF, "replays")
    os.makedirs(p, exist_ok=True)
    path = os.path.join(p, "%s-%s.json" % (pid_, h))
    with open(path, "w") as fp:
        json.dump(d, fp, indent=1, default=str)
    return path
