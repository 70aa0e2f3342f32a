"""
Parent process of a check: builds, farms seeds out to worker processes,
classifies what happens, minimises violations, and writes evidence.
"""

import importlib
import json
import os
import pathlib
import random
import select
import shlex
import signal
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
CHUNK = 20
# A run, normally of less than two seconds, hangs when it has taken this many
# real seconds, most of them computing (so, not waiting for a busy machine) ...
SEED_TIMEOUT = 60.0
STUCK_TIMEOUT = 150.0  # ... or this many in any case


def log(*args):
    print(*args, flush=True)


def build():
    r = subprocess.run(
        ["bash", str(VERIF / "build.sh")],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )  # fmt: skip
    if r.returncode != 0:
        log(r.stdout[-4000:])
        log("ERROR: /repo does not build")
        sys.exit(3)


def build_shim():
    """Compiles the fault-injection shim to /verif/.build/simshim.so."""
    out = VERIF / ".build"
    out.mkdir(exist_ok=True)
    src = VERIF / "shim" / "simshim.cpp"
    so = out / "simshim.so"
    if so.exists() and so.stat().st_mtime > src.stat().st_mtime:
        return so
    tmp = out / f"simshim.{os.getpid()}.so"
    r = subprocess.run(
        ["g++", "-O2", "-std=c++20", "-shared", "-fPIC", "-o", str(tmp),
         str(src), "-ldl", "-lpthread"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )  # fmt: skip
    if r.returncode != 0:
        log(r.stdout[-4000:])
        log("ERROR: the shim does not build")
        sys.exit(3)
    os.replace(tmp, so)
    return so


def build_inst():
    """
    Builds a copy of the search extension from /repo's sources (with the flags
    of its own build) in which every function entry and exit is a yield point.
    """
    out = VERIF / ".build" / "inst"
    out.mkdir(parents=True, exist_ok=True)
    so = out / "_search.cpython-312-x86_64-linux-gnu.so"
    stamp = out / "sources"
    sources = (REPO / "build" / ".vp-sources").read_text()
    if so.exists() and stamp.exists() and stamp.read_text() == sources:
        return so
    stamp.unlink(missing_ok=True)
    base = REPO / "build"
    cmds = json.loads((base / "compile_commands.json").read_text())
    cmds = [
        e for e in cmds
        if not e["output"].startswith("_pyvrp.") and "pyvrp/cpp" in e["file"]
    ]  # fmt: skip
    cmds.sort(key=lambda e: "bindings" not in e["file"])

    def compile(e):
        argv = shlex.split(e["command"])
        drop = ("/usr/bin/ccache", "ccache", "-g", "-Werror", "-MD")
        argv = [
            a for a in argv if a not in drop and not a.startswith("-flto")
        ]
        obj = str(out / (e["output"].replace("/", "_")))
        argv[argv.index("-o") + 1] = obj
        for flag in ("-MQ", "-MF"):
            if flag in argv:
                i = argv.index(flag)
                del argv[i : i + 2]
        argv[1:1] = [
            "-finstrument-functions",
            "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,"
            "pybind11",
        ]
        r = subprocess.run(argv, cwd=base, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)  # fmt: skip
        return r.returncode, r.stdout, obj

    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        res = list(pool.map(compile, cmds))
    bad = [r for r in res if r[0]]
    if not bad:
        r = subprocess.run(
            ["c++", "-shared", "-fPIC", "-o", str(so), *[r[2] for r in res],
             "-pthread"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )  # fmt: skip
        bad = [(r.returncode, r.stdout)] if r.returncode else []
    for r in res:
        pathlib.Path(r[2]).unlink(missing_ok=True)
    if bad:
        log(bad[0][1][-4000:])
        log("ERROR: the instrumented extension does not build")
        sys.exit(3)
    stamp.write_text(sources)
    return so


def worker_env(mod, hashseed="0"):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": os.environ.get("HOME", "/root"),
        "LANG": "C.UTF-8",
        "PYTHONHASHSEED": hashseed,
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "TQDM_DISABLE": "1",
    }
    if getattr(mod, "NEEDS_SHIM", False):
        env["LD_PRELOAD"] = str(build_shim())
    if getattr(mod, "NEEDS_INST", False):
        env["VERIF_INST"] = str(build_inst())
    env.update(getattr(mod, "ENV", {}))
    return env


class Worker:
    def __init__(self, prop, tier, env):
        self.proc = subprocess.Popen(
            [PY, "-m", "dst.worker", prop, tier],
            cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, bufsize=1,
            start_new_session=True,
        )  # fmt: skip
        os.set_blocking(self.proc.stderr.fileno(), False)
        self.err = ""
        self.mark()

    def send(self, req):
        try:
            self.proc.stdin.write(json.dumps(req) + "\n")
            self.proc.stdin.flush()
        except BrokenPipeError:
            pass

    def cpu(self):
        """Seconds of computing so far."""
        try:
            stat = pathlib.Path(f"/proc/{self.proc.pid}/stat").read_text()
        except OSError:
            return 0.0
        fields = stat.rpartition(")")[2].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")

    def mark(self):
        """A run starts now."""
        self.since = time.monotonic()
        self.cpu0 = self.cpu()

    def stuck(self):
        wall = time.monotonic() - self.since
        if wall <= SEED_TIMEOUT:
            return False
        return wall > STUCK_TIMEOUT or self.cpu() - self.cpu0 > 0.8 * SEED_TIMEOUT

    def drain(self):
        try:
            self.err = (self.err + (self.proc.stderr.read() or ""))[-4000:]
        except (ValueError, OSError, TypeError):
            pass

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        for f in (self.proc.stdin, self.proc.stdout, self.proc.stderr):
            try:
                f.close()
            except OSError:
                pass


def crash(worker):
    """Response for a run during which the worker process died."""
    worker.proc.wait()
    worker.drain()
    rc = worker.proc.returncode
    name = signal.Signals(-rc).name if rc < 0 else f"exit-{rc}"
    return {
        "violation": {"kind": f"crash:{name}", "msg": worker.err[-1200:]},
        "counters": {}, "states": [], "digest": f"crash:{name}",
        "events": 0, "sim_time": 0.0, "nontrivial": True, "wall": 0.0,
    }  # fmt: skip


def hang():
    return {
        "violation": {
            "kind": "hang",
            "msg": f"a single run made no progress in {SEED_TIMEOUT} s",
        },
        "counters": {}, "states": [], "digest": "hang", "events": 0,
        "sim_time": 0.0, "nontrivial": True, "wall": SEED_TIMEOUT,
    }  # fmt: skip


def execute(prop, tier, env, reqs, timeout=None, want_log=False):
    """
    Runs the given requests in one fresh worker process; returns the response
    to the last one. Gives up on a run after ``timeout`` seconds, if given.
    """
    w = Worker(prop, tier, env)
    res = None
    try:
        for i in range(-1, len(reqs)):
            if i >= 0:
                req = dict(reqs[i])
                if want_log and i == len(reqs) - 1:
                    req["log"] = True
                w.send(req)
            w.mark()
            while not select.select([w.proc.stdout], [], [], 1.0)[0]:
                if w.stuck():
                    return hang()
                if timeout and time.monotonic() - w.since > timeout:
                    return hang()
            line = w.proc.stdout.readline()
            if not line:
                if i < 0:
                    w.proc.wait()
                    w.drain()
                    return {"error": "worker did not start: " + w.err}
                return crash(w)
            res = json.loads(line)
        return res
    finally:
        w.kill()


class Farm:
    """Runs chunks of seeds over several worker processes."""

    def __init__(self, prop, tier, mod, env, nworkers):
        self.prop, self.tier, self.mod, self.env = prop, tier, mod, env
        self.nworkers = nworkers

    def run(self, seeds, deadline, on_result):
        """
        Calls on_result(history, response) for every run; on_result returns
        True to stop. Chunks are fixed, independent of the worker count.
        """
        size = getattr(self.mod, "CHUNK", CHUNK)
        chunks = [seeds[i : i + size] for i in range(0, len(seeds), size)]
        chunks.reverse()
        active = {}  # fd -> [worker, chunk, pos]
        stop = False

        def launch():
            if chunks and not stop and time.monotonic() < deadline:
                w = Worker(self.prop, self.tier, self.env)
                active[w.proc.stdout.fileno()] = [w, chunks.pop(), -1]

        def retire(fd):
            w = active.pop(fd)[0]
            w.kill()

        for _ in range(self.nworkers):
            launch()
        try:
            while active:
                r, _, _ = select.select(list(active), [], [], 1.0)
                now = time.monotonic()
                for fd in r:
                    w, chunk, pos = active[fd]
                    w.drain()
                    line = w.proc.stdout.readline()
                    if not line:
                        if pos < 0:
                            w.proc.wait()
                            w.drain()
                            res = {"error": "worker did not start: " + w.err}
                            res["seed"] = chunk[0]
                        else:
                            res = crash(w)
                            res["seed"] = chunk[pos]
                        stop |= bool(on_result(chunk[: max(pos, 0)], res))
                        # Continue the rest of the chunk elsewhere.
                        rest = chunk[pos + 1 :]
                        if rest and not stop:
                            chunks.append(rest)
                        retire(fd)
                        launch()
                        continue
                    res = json.loads(line)
                    if pos >= 0:
                        stop |= bool(on_result(chunk[:pos], res))
                    pos += 1
                    if pos >= len(chunk) or stop or now > deadline:
                        retire(fd)
                        launch()
                        continue
                    active[fd][2] = pos
                    w.mark()
                    w.send({"seed": chunk[pos]})
                for fd in list(active):
                    w, chunk, pos = active[fd]
                    w.drain()
                    if stop:
                        retire(fd)
                    elif w.stuck():
                        res = hang()
                        res["seed"] = chunk[max(pos, 0)]
                        stop |= bool(on_result(chunk[: max(pos, 0)], res))
                        retire(fd)
                        launch()
        finally:
            for fd in list(active):
                retire(fd)


def same(a, b):
    return a is not None and b is not None and a.get("kind") == b.get("kind")


def minimise(prop, tier, mod, env, plan, viol, budget):
    """Greedy shrinking of a failing plan, in fresh processes."""
    end = time.monotonic() + budget
    tried = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in getattr(mod, "shrink", lambda p: ())(plan):
            if time.monotonic() > end:
                break
            tried += 1
            res = execute(prop, tier, env, [{"plan": cand}], timeout=60)
            if same(res.get("violation"), viol):
                plan = cand
                viol = res["violation"]
                improved = True
                break
    return plan, viol, tried


def known_findings(prop):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [
        k for k in json.loads(path.read_text())["known"]
        if k["property"] == prop
    ]  # fmt: skip


def match_known(known, viol):
    for k in known:
        if k["kind"] == viol["kind"] and k.get("contains", "") in viol["msg"]:
            return k
    return None


def check(prop, tier, seed, nworkers=None, nseeds=None, write=True):
    t0 = time.monotonic()
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    build()
    built = time.monotonic() - t0
    env = worker_env(mod)
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    budget = mod.BUDGET[tier]
    n = nseeds or budget["runs"]
    seeds = [seed * 1_000_000 + i for i in range(n)]
    deadline = time.monotonic() + budget["wall"]
    known = known_findings(prop)

    log(
        f"{prop} tier={tier} VERIF_SEED={seed} seeds={seeds[0]}..{seeds[-1]} "
        f"workers={nworkers}"
    )

    agg = Counter()
    digests = set()
    nontrivial = set()
    states = set()
    tot = {"runs": 0, "events": 0, "sim": 0.0}
    samples = []
    errors = []
    found = []
    seen_known = {}

    def on_result(history, res):
        if "error" in res:
            errors.append(res)
            return len(errors) >= 3
        tot["runs"] += 1
        tot["events"] += res["events"]
        tot["sim"] += res["sim_time"]
        agg.update(res["counters"])
        digests.add(res["digest"])
        if res["nontrivial"]:
            nontrivial.add(res["digest"])
        if len(states) < 2_000_000:
            states.update(res["states"])
        if len(samples) < 3 and res["nontrivial"]:
            samples.append(
                {"seed": res["seed"], "digest": res["digest"],
                 "events": res["events"], "counters": res["counters"]}
            )  # fmt: skip
        viol = res.get("violation")
        if viol:
            k = match_known(known, viol)
            if k:
                seen_known[k["id"]] = k
                return False
            found.append((res["seed"], list(history), viol))
            return True
        return False

    Farm(prop, tier, mod, env, nworkers).run(seeds, deadline, on_result)
    wall_sim = time.monotonic() - t0 - built

    violations = []
    for vseed, history, viol in found[:1]:
        log(f"candidate violation: seed {vseed}: {viol['kind']}: {viol['msg']}")
        fresh = execute(prop, tier, env, [{"seed": vseed}])
        if same(fresh.get("violation"), viol):
            pl = execute(prop, tier, env, [{"seed": vseed, "plan_only": True}])
            plan, viol, tried = minimise(
                prop, tier, mod, env, pl["plan"], fresh["violation"],
                30 if viol["kind"] != "hang" else 0,
            )  # fmt: skip
            final = execute(
                prop, tier, env, [{"plan": plan}], want_log=True
            )
            doc = {"mode": "plan", "plan": plan, "shrink_attempts": tried}
        else:
            # Needs the runs before it in the same process (state that leaks
            # from run to run), or memory contents outside our control: an
            # invalid read, say. Such a run is still a violation, because runs
            # of the unchanged tree are deterministic; hangs are not, since
            # they may be due to a loaded machine.
            reqs = [{"seed": s} for s in [*history, vseed]]
            again = None
            for _ in range(4):
                again = execute(prop, tier, env, reqs)
                if same(again.get("violation"), viol):
                    break
            if not same(again.get("violation"), viol):
                if again.get("violation") or not (
                    viol["kind"] in ("hang", "crash:SIGKILL")
                ):
                    log("note: reproduced irregularly")
                    viol = again.get("violation") or viol
                else:
                    errors.append(
                        {"error": f"seed {vseed}: {viol} did not reproduce: "
                         f"{fresh.get('violation')}, {again.get('violation')}"
                         f", {fresh.get('error')}"}
                    )  # fmt: skip
                    continue
            while len(reqs) > 1 and viol["kind"] != "hang":  # drop history
                half = reqs[(len(reqs) - 1) // 2 + 1 :] if len(reqs) > 2 else None
                if not half:
                    break
                res = execute(prop, tier, env, half)
                if not same(res.get("violation"), viol):
                    break
                reqs = half
            final = again
            doc = {"mode": "history", "seeds": [r["seed"] for r in reqs]}
        path = VERIF / "replays" / f"{prop}-{vseed}.json"
        path.parent.mkdir(exist_ok=True)
        doc.update(
            property=prop, tier=tier, seed=vseed, violation=viol,
            digest=final.get("digest"), trace=final.get("log"),
        )  # fmt: skip
        path.write_text(json.dumps(doc, indent=1))
        violations.append((path, viol))

    wall = time.monotonic() - t0
    hours = max(wall_sim, 1e-9) / 3600
    coverage = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE,
        "samples": samples or [{"seed": seeds[0]}],
        "seeds": {"first": seeds[0], "planned": n, "executed": tot["runs"]},
        "runs_per_hour": round(tot["runs"] / hours),
        "simulated_seconds": round(tot["sim"], 3),
        "events": tot["events"],
        "distinct_traces": len(digests),
        "distinct_states": len(states),
        "state_measure": getattr(mod, "STATES", "hash of the observed state"),
        "faults_injected": {
            k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")
        },
        "probes": {
            k[6:]: v for k, v in sorted(agg.items()) if k.startswith("probe:")
        },
        "checks": {
            k[6:]: v for k, v in sorted(agg.items()) if k.startswith("check:")
        },
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "workers": nworkers,
        "build_s": round(built, 1),
        "exhaustive": False,
    }
    if write:
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{prop}.json").write_text(
            json.dumps(
                {
                    "property": prop, "tier": tier, "seed": seed,
                    "level": mod.LEVEL, "coverage": coverage,
                    "assumptions": mod.ASSUMPTIONS,
                    "wall_s": round(wall, 2), "violations": len(violations),
                }, indent=1,
            ) + "\n"
        )  # fmt: skip
    log(
        f"{prop}: {tot['runs']} runs, {len(digests)} distinct traces, "
        f"{len(nontrivial)} distinct non-trivial, {len(states)} states, "
        f"{sum(coverage['faults_injected'].values())} faults, "
        f"{wall:.1f} s (build {built:.1f} s)"
    )
    for k in known:
        if k["id"] in seen_known or k.get("always"):
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        for path, viol in violations:
            log(f"{viol['kind']}: {viol['msg']}")
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            log("ERROR:", e.get("seed"), e["error"])
        return 2
    if tot["runs"] == 0:
        log("ERROR: no run was executed")
        return 2
    return 0


def replay(path):
    sys.path.insert(0, str(VERIF))
    doc = json.loads(pathlib.Path(path).read_text())
    prop, tier = doc["property"], doc["tier"]
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    build()
    env = worker_env(mod)
    if doc["mode"] == "plan":
        reqs = [{"plan": doc["plan"]}]
    else:
        reqs = [{"seed": s} for s in doc["seeds"]]
    res = execute(prop, tier, env, reqs, want_log=True)
    for line in res.get("log") or []:
        log("  ", line[:300])
    viol = res.get("violation")
    log("recorded:", doc["violation"]["kind"], "digest", doc.get("digest"))
    log("replayed:", viol and viol["kind"], "digest", res.get("digest"))
    if viol:
        log(viol["msg"])
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def determinism(prop, tier, seed, n):
    """Runs n seeds under several worker counts and hash seeds; diffs traces."""
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    build()
    seeds = [seed * 1_000_000 + i for i in range(n)]
    ref = None
    bad = 0
    for workers, hs in ((8, "0"), (3, "0"), (8, "12345")):
        env = worker_env(mod, hs)
        got = {}

        def on_result(_, res):
            got[res["seed"]] = (
                res.get("digest"), res.get("violation"), res.get("error"),
            )

        Farm(prop, tier, mod, env, workers).run(
            seeds, time.monotonic() + 3600, on_result
        )
        if ref is None:
            ref = got
        else:
            diff = [s for s in seeds if ref.get(s) != got.get(s)]
            bad += len(diff)
            log(prop, "workers", workers, "hashseed", hs, "differing:", diff[:5])
    viols = [(s, v[1]) for s, v in ref.items() if v[1]]
    errs = [(s, v[2]) for s, v in ref.items() if v[2]]
    log(prop, f"{n} seeds x 3: {bad} differ, {len(viols)} violations, "
        f"{len(errs)} errors", viols[:2], errs[:1])  # fmt: skip
    return bad
