"""Drives one check: many generated cases over worker processes, each executed by the real code in
a long-lived executor and judged by the check's oracle.

A case function `case(ctx, rng, i)` generates a workload, runs it and compares what it observed
with what it expected.  It raises `Violation`, or returns a `Case` that says what was observed.

Verdicts are three-valued.  A violation is reported when the same case violates the property again
on a second execution (checks of concurrent behaviour opt out of that).  An executor which does not
answer is inconclusive, unless the case gives no answer twice whereas a trivial program compiled in
between is answered at once."""
import argparse, collections, fcntl, hashlib, importlib, json, multiprocessing as mp, os, queue
import random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

import build, vh

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg, self.data = msg, data


class Hang(Exception):
    pass


class Inconclusive(Exception):
    pass


class Case:
    """What one case covered: `sig` identifies the input, `nontrivial` says whether it counts,
    `seen` are the names of observed events (counted over the run)."""

    def __init__(self, sig, nontrivial=True, seen=(), sample=None, executions=1):
        self.sig = hashlib.blake2b(repr(sig).encode(), digest_size=8).digest()
        self.nontrivial, self.sample, self.executions = nontrivial, sample, executions
        self.seen = seen if isinstance(seen, dict) else collections.Counter(seen)


def scratch_root():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Ctx:
    """What a case uses to execute the code under test."""

    def __init__(self, bins, tier, timeout=25):
        self.bins, self.tier, self.timeout = bins, tier, timeout
        self.root = tempfile.mkdtemp(prefix="vh-", dir=scratch_root())
        self.ex = vh.Exec(bins["vh"])
        self.n = 0
        self.history = []

    def fresh(self, files=None):
        """A new empty directory, with `files` in it."""
        self.n += 1
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = os.path.join(self.root, f"d{self.n % 4}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.history = []
        self.put(files or {})
        return self.dir

    def put(self, files):
        for name, data in files.items():
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
        if files:
            self.history.append({"files": {k: v if isinstance(v, str) else f"<{len(v)} bytes>"
                                           for k, v in files.items()}})

    def get(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def exists(self, name):
        return os.path.lexists(os.path.join(self.dir, name))

    def ls(self):
        return sorted(os.listdir(self.dir))

    def req(self, r):
        a = self.ex.req(r, self.timeout)
        if "timeout" in a:
            raise Hang(f"no answer within {self.timeout} s (CPU {a['timeout']:.1f} s) to {str(r)[:300]}")
        return a

    def run(self, *argv, cwd=None):
        """Compile with the command line `argv`: {"ok", "stage", "error", "panic", "panics"}."""
        argv = [str(a) for a in argv]
        self.history.append({"argv": argv})
        a = self.req({"op": "run", "cwd": cwd or self.dir, "argv": argv})
        if "died" in a:
            a = {"ok": False, "panic": True, "died": a["died"], "stage": "?",
                 "panics": [f"the process ended: {a['died']} {a['stderr'][-400:]}"]}
        return a

    def start_cli(self, argv, cwd=None, threads=None, env=None, fsize=None, user=None, binary=None):
        """Start the real program"""
        argv = [str(a) for a in argv]
        self.history.append({"program": argv, **({"cwd": str(cwd)} if cwd else {}), **({"threads": threads} if threads else {})})
        e = {"HOME": "/nonexistent", "PATH": "/usr/bin:/bin", "NO_COLOR": "1", "TZ": "UTC", "LANG": "C.UTF-8",
             "RAYON_NUM_THREADS": str(threads or 2), **(env or {})}

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (vh.AS_LIMIT, vh.AS_LIMIT))
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        return subprocess.Popen([binary or self.bins["cli"]] + argv, cwd=cwd or self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env=e, preexec_fn=pre, restore_signals=fsize is None, **({"user": user, "group": user, "extra_groups": []} if user else {}))

    def wait_cli(self, p, timeout=None):
        try:
            out, err = p.communicate(timeout=timeout or self.timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Hang(f"{p.args[1:]} does not end within {timeout or self.timeout} s")
        except BaseException:
            p.kill()
            p.wait()
            raise
        err = err.decode("utf-8", "replace")
        r = {"ok": p.returncode == 0, "status": p.returncode, "stdout": out.decode("utf-8", "replace"), "stderr": err, "stage": "program", "error": err.strip()}
        if p.returncode < 0 or p.returncode == 101 or "panicked at" in err:
            r.update(ok=False, panic=True, panics=[f"status {p.returncode}: {err[-500:]}"])
        return r

    def cli(self, *argv, timeout=None, **kw):
        """Run the real program: {"ok", "status", "stdout", "stderr", "error"}."""
        return self.wait_cli(self.start_cli(argv, **kw), timeout)

    def par(self, runs):
        """Compile with several command lines at the same time, in one process"""
        runs = [[str(a) for a in r] for r in runs]
        self.history.append({"at the same time": runs})
        a = self.req({"op": "par", "runs": [{"op": "run", "cwd": self.dir, "argv": r} for r in runs]})
        if isinstance(a, dict):
            a = [{"ok": False, "panic": True, "stage": "?", "panics": [f"the process ended: {a.get('died')} {a.get('stderr', '')[-400:]}"]}] * len(runs)
        return a

    def snapshot(self, top=None):
        """Every file below the directory: path -> bytes (None for a directory, "-> target" for a link)"""
        top = top or self.dir
        out = {}
        for d, ds, fs in os.walk(top):
            for n in ds + fs:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, top)
                if os.path.islink(p):
                    out[rel] = "-> " + os.readlink(p)
                elif os.path.isdir(p):
                    out[rel] = None
                else:
                    with open(p, "rb") as f:
                        out[rel] = f.read()
        return out

    def control(self):
        """Does the executor still answer a trivial request quickly?"""
        d = os.path.join(self.root, "control")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "c.csvpp"), "w") as f:
            f.write("a,b\n")
        t = time.time()
        a = self.ex.req({"op": "run", "cwd": d, "argv": ["-o", "c.csv", "--no-cache", "c.csvpp"]}, 20)
        return bool(a.get("ok")) and time.time() - t < 10

    def close(self):
        self.ex.stop()
        shutil.rmtree(self.root, ignore_errors=True)


def case_rng(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


def execute(mod, ctx, seed, i):
    """Run case `i`: ("ok", Case) | ("violation", msg, data) | ("inconclusive", msg)"""
    def once():
        ctx.history = []
        signal.alarm(150)
        try:
            return ("ok", mod.case(ctx, case_rng(seed, mod.ID, i), i))
        except Violation as v:
            d = dict(v.data)
            d.setdefault("history", ctx.history)
            return ("violation", v.msg, d)
        except Hang as h:
            return ("hang", str(h), {"history": list(ctx.history)})
        except Inconclusive as e:
            ctx.ex.stop()
            return ("inconclusive", str(e))
        finally:
            signal.alarm(0)

    r = once()
    if r[0] == "violation" and getattr(mod, "CONFIRM", True):
        for _ in range(2):
            r2 = once()
            if r2[0] == "violation":
                return r2
        return ("inconclusive", "did not repeat: " + r[1])
    if r[0] == "hang":
        if not ctx.control():
            return ("inconclusive", "the machine is too slow: " + r[1])
        r2 = once()
        if r2[0] == "hang" and ctx.control():
            return ("violation", "the compiler does not finish: " + r2[1], r2[2])
        return r2 if r2[0] != "hang" else ("inconclusive", r[1])
    return r


def too_long(*_):
    raise Inconclusive("the case took too long")


def worker(modname, bins, tier, seed, total, nxt, deadline, stop, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, too_long)
    mod = importlib.import_module(modname)
    ctx = Ctx(bins, tier)
    try:
        while not stop.is_set() and time.time() < deadline.value:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= total:
                break
            try:
                r = execute(mod, ctx, seed, i)
            except Exception:
                r = ("error", traceback.format_exc())
            out.put((i,) + r)
    finally:
        ctx.close()
        out.put(None)


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def write_replay(prop, seed, tier, i, msg, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{seed}-{i}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": i, "what": msg,
                   "replay_cmd": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop} --case {i}",
                   "data": data}, f, indent=1, default=repr)
    return os.path.relpath(p, VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--case", help="only this case (as a replay file names it)")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    modname = "checks." + a.property.lower()
    mod = importlib.import_module(modname)
    try:
        bins = build.build(tier)
    except build.BuildError as e:
        print(f"cannot build: {e}", file=sys.stderr)
        return 2
    prop = mod.ID
    if a.case is not None and not a.case.startswith("known"):
        ctx = Ctx(bins, tier)
        try:
            r = execute(mod, ctx, seed, int(a.case))
            print(json.dumps(r[1:] if r[0] != "ok" else vars(r[1]), indent=1, default=repr)[:20000])
            print(r[0])
            if r[0] == "violation":
                p = write_replay(prop, seed, tier, int(a.case), r[1], r[2])
                print(f"VIOLATION property={prop} replay={p}")
            return {"ok": 0, "violation": 1}.get(r[0], 2)
        finally:
            ctx.close()

    total = a.cases or mod.CASES[tier]
    limit = a.time or mod.TIME[tier]
    deadline = mp.Value("d", time.time() + limit)
    # (a busy machine)
    latest = deadline.value + 3 * limit
    nxt, stop, out = mp.Value("i", 0), mp.Event(), mp.Queue()
    violations = []
    seen, sigs, nontrivial, samples = collections.Counter(), set(), set(), []
    done = executions = 0
    inconclusive, errors = [], []

    # specific inputs with a known outcome: listed findings and the regressions of repaired defects
    findings = known_findings(prop)
    printed = []
    fixed_inputs = getattr(mod, "FIXED", {})
    ctx = Ctx(bins, tier)
    try:
        for name, fn in fixed_inputs.items():
            listed = [k for k in findings if k["id"] == name and k["status"] == "open"]
            ctx.history = []
            try:
                fn(ctx)
                failed = None
            except Violation as v:
                failed = v
            except Hang as h:
                failed = Violation(str(h)) if ctx.control() else None
            done += 1
            executions += 1
            if failed is None:
                seen["fixed input held"] += 1
                continue
            if listed:
                printed.append(name)
                print(f"KNOWN-FINDING: property={prop} {name}: {listed[0]['what']}")
            else:
                d = dict(failed.data)
                d.setdefault("history", ctx.history)
                violations.append(("fixed-" + name, failed.msg, d))
    finally:
        ctx.close()

    procs = [mp.Process(target=worker, args=(modname, bins, tier, seed, total, nxt, deadline, stop, out))
             for _ in range(min(a.workers, getattr(mod, "WORKERS", 8)))]
    if violations:
        procs = []
    for p in procs:
        p.start()
    left = len(procs)
    while left:
        now = time.time()
        if deadline.value - 4 < now < deadline.value and deadline.value < latest and not violations and any(not seen.get(m) for m in getattr(mod, "MUST_SEE", ())):
            deadline.value += 10
        try:
            r = out.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline.value + 200:
                inconclusive.append((-1, "a worker does not end"))
                break
            continue
        if r is None:
            left -= 1
            continue
        done += 1
        i, kind = r[0], r[1]
        if kind == "ok":
            c = r[2]
            executions += c.executions
            seen.update(c.seen)
            sigs.add(c.sig)
            if c.nontrivial:
                nontrivial.add(c.sig)
                if c.sample is not None and len(samples) < 4:
                    samples.append({"case": i, **(c.sample if isinstance(c.sample, dict) else {"input": c.sample})})
        elif kind == "violation":
            violations.append((i, r[2], r[3]))
            if len(violations) >= int(os.environ.get("VERIF_STOP", "3")):
                stop.set()
        elif kind == "inconclusive":
            inconclusive.append((i, r[2]))
        else:
            errors.append((i, r[2]))
            if len(errors) > 5:
                stop.set()
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()

    # a run which saw too little proves nothing
    missing = [m for m in getattr(mod, "MUST_SEE", ()) if not seen.get(m)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE, "samples": samples or [{"note": "no case completed"}],
            "executions_of_the_code": executions,
            "cases_planned": total, "stopped_by_time_limit": done < total,
            "observed_events": dict(sorted(seen.items())),
            "known_findings_seen": printed,
            "inconclusive": [f"{i}: {m[:200]}" for i, m in inconclusive[:5]],
            "inconclusive_count": len(inconclusive),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    for i, msg, data in violations[:int(os.environ.get("VERIF_STOP", "3"))]:
        p = write_replay(prop, seed, tier, i, msg, data)
        print(f"{prop} case {i}: {msg}"[:3000])
        print(f"VIOLATION property={prop} replay={p}")
    print(f"{prop}: {done} cases, {len(nontrivial)} distinct, {executions} executions, "
          f"{len(violations)} violations, {len(inconclusive)} inconclusive, {len(errors)} errors, "
          f"{ev['wall_s']} s")
    if violations:
        return 1
    if errors:
        print(f"error in the check, case {errors[0][0]}:\n{errors[0][1]}", file=sys.stderr)
        return 2
    if len(inconclusive) > max(3, done // 50):
        print(f"inconclusive: {inconclusive[:3]}", file=sys.stderr)
        return 2
    if missing and not a.cases:
        print(f"inconclusive: never observed {missing}", file=sys.stderr)
        return 2
    return 0
