"""Command line driver.

    python3 -m pbt.run C01                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
    python3 -m pbt.run C01 --replay FILE   re-run one stored case
    python3 -m pbt.run C01 --facet NAME    restrict to one facet (development)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: harness error.
"""

import argparse
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def child_env(numba_dir):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(numba_dir, "mpl"),
        JAX_PLATFORMS="cpu",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        NUMBA_CACHE_DIR=os.path.join(numba_dir, "numba"),
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        PYTHONPATH=VERIF,
        TMPDIR=numba_dir,
        HOME=os.environ.get("HOME", "/root"),
    )
    return env


class Worker:
    def __init__(self, prop, stop_file, deadline, env):
        self.args = (prop, stop_file, deadline, env)
        self.start()

    def start(self):
        prop, stop_file, deadline, env = self.args
        self.err = tempfile.TemporaryFile(dir=env["TMPDIR"])
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-m", "pbt.worker", prop, stop_file, str(deadline)],
            cwd=VERIF,
            env=env,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            text=True,
        )
        self.q = queue.Queue()
        threading.Thread(target=self._read, args=(self.p, self.q), daemon=True).start()

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def recv(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"
        if line is None:
            return None
        return json.loads(line)

    def send(self, obj):
        self.p.stdin.write(json.dumps(obj) + "\n")
        self.p.stdin.flush()

    def stderr_tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-3000:].decode(errors="replace")
        except Exception:
            return ""

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def sub_seed(seed, facet, i):
    return int(hashlib.sha256(f"{seed}/{facet}/{i}".encode()).hexdigest()[:12], 16)


def facet_info(prop, env):
    """Facet names and counts, read in a child process (this process never imports qrisp)."""
    code = (
        "import json,os,sys\n"
        "out=os.dup(1); os.dup2(os.open(os.devnull,os.O_WRONLY),1)\n"
        "from pbt.worker import setup_path,load\n"
        "setup_path()\n"
        "import traceback\n"
        "try:\n"
        f"    m=load({prop!r})\n"
        "    r=dict(rule=m.RULE,assumptions=getattr(m,'ASSUMPTIONS',[]),level=getattr(m,'LEVEL','exploration'),"
        "budget=getattr(m,'BUDGET',{}),clear_jax=getattr(m,'CLEAR_JAX',False),"
        "facets=[dict(name=f.name,quick=f.quick,thorough=f.thorough,chunk=f.chunk,weight=f.weight,"
        "enum=(f.exhaustive(os.environ.get('VERIF_TIER','quick')) if f.exhaustive else [])) for f in m.FACETS])\n"
        "except BaseException as e:\n"
        "    from pbt.core import from_sut\n"
        "    r=dict(load_error=traceback.format_exc()[-4000:],sut=isinstance(e,Exception) and from_sut(e))\n"
        "os.write(out,json.dumps(r).encode())\n"
    )
    p = subprocess.run([PY, "-W", "ignore", "-c", code], cwd=VERIF, env=env, capture_output=True)
    if not p.stdout:
        raise SystemExit2("could not load property module: " + p.stderr.decode(errors="replace")[-3000:])
    return json.loads(p.stdout)


class SystemExit2(Exception):
    pass


def known_findings():
    """Lines `known: {json}` of known_findings.txt (`fixed:` lines are documentation only)."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: "):
                    out.append(json.loads(line[7:]))
    return out


def replay_in_process(prop, facet, spec, env, timeout=600):
    """Re-run one spec in a fresh process: 'violation' | 'ok' | 'harness' | 'timeout', message."""
    d = tempfile.mkdtemp(dir=env["TMPDIR"])
    path = os.path.join(d, "spec.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, spec=spec), f)
    code = (
        "import json,os,sys\n"
        "out=os.dup(1); os.dup2(os.open(os.devnull,os.O_WRONLY),1)\n"
        "from pbt.worker import setup_path,load\n"
        "setup_path()\n"
        "from pbt.core import *\n"
        f"d=json.load(open({path!r}))\n"
        f"m=load({prop!r})\n"
        "f={x.name:x for x in m.FACETS}[d['facet']]\n"
        "try:\n"
        "    l=run_check(f,d['spec']); r=('ok',str(l))\n"
        "except Violation as e: r=('violation',str(e))\n"
        "except Reject as e: r=('ok','rejected '+str(e))\n"
        "except HarnessError as e: r=('harness',str(e))\n"
        "os.write(out,json.dumps(r).encode())\n"
        "os._exit(0)\n"
    )
    try:
        p = subprocess.run([PY, "-W", "ignore", "-c", code], cwd=VERIF, env=env, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "replay timed out"
    if not p.stdout:
        return "harness", p.stderr.decode(errors="replace")[-3000:]
    k, msg = json.loads(p.stdout)
    return k, msg


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="verif_")
    os.makedirs(os.path.join(tmp, "numba"))
    os.makedirs(os.path.join(tmp, "mpl"))
    env = child_env(tmp)
    env["VERIF_TIER"] = tier
    try:
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            k, msg = replay_in_process(d["property"], d["facet"], d["spec"], env)
            print(f"replay {a.replay}: {k}: {msg}")
            if k == "violation":
                print(f"VIOLATION property={d['property']} replay={os.path.abspath(a.replay)}")
                return 1
            return 0 if k == "ok" else 2
        return run(prop, tier, seed, tmp, env, a)
    except SystemExit2 as e:
        print("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(prop, v, facet):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(v["spec"], sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(d, f"{prop}_{facet}_{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, spec=v["spec"], message=v["msg"]), f)
    return path


def run(prop, tier, seed, tmp, env, a):
    t0 = time.time()
    info = facet_info(prop, env)
    if "load_error" in info:
        if info["sut"]:
            # the package under test cannot even be imported / used to set up the check
            path = write_replay(prop, dict(spec={"import": True}, msg=info["load_error"]), "import")
            print(info["load_error"])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise SystemExit2(info["load_error"])
    budget = info["budget"].get(tier, 600 if tier == "quick" else 7200)
    deadline = t0 + budget
    hard = deadline + 150
    stop_file = os.path.join(tmp, "stop")
    facets = [f for f in info["facets"] if not a.facet or f["name"] in a.facet.split(",")]
    per = {}
    for f in facets:
        tasks = []
        for i in range(0, len(f["enum"]), 20):
            tasks.append(dict(facet=f["name"], specs=f["enum"][i : i + 20], seed=None, clear_jax=info["clear_jax"]))
        n = int((f["quick"] if tier == "quick" else f["thorough"]) * a.scale)
        if n <= 0 and f["quick"] > 0:
            n = 1
        chunk = f["chunk"] or max(20, -(-n // 8))
        i = 0
        while n > 0:
            k = min(chunk, n)
            tasks.append(
                dict(facet=f["name"], seed=sub_seed(seed, f["name"], i), n=k, clear_jax=info["clear_jax"])
            )
            n -= k
            i += 1
        per[f["name"]] = tasks
    # interleave facets so that a budget stop hits all of them evenly
    order = []
    longest = max((len(v) for v in per.values()), default=0)
    for i in range(longest):
        for name, ts in per.items():
            if i < len(ts):
                order.append(ts[i])
    tq = queue.Queue()
    for t in order:
        tq.put(t)
    results, problems, lock = [], [], threading.Lock()
    viol = []

    def drive():
        w = Worker(prop, stop_file, deadline, env)
        try:
            r = w.recv(max(300, hard - time.time()))
            if r in (None, "timeout") or "load_error" in r:
                problems.append("worker failed to start: " + (r["load_error"] if isinstance(r, dict) else str(r)) + w.stderr_tail())
                return
            while True:
                if os.path.exists(stop_file):
                    return
                try:
                    t = tq.get_nowait()
                except queue.Empty:
                    return
                if time.time() > deadline:
                    with lock:
                        results.append(dict(facet=t["facet"], evals=0, rejected=0, skipped=t.get("n", 1), labels={}, nontrivial=[], samples=[], wall=0))
                    continue
                w.send(t)
                r = w.recv(max(60, hard - time.time()))
                if r == "timeout":
                    with lock:
                        results.append(dict(facet=t["facet"], evals=0, rejected=0, skipped=t.get("n", 1), labels={}, nontrivial=[], samples=[], wall=0, hang=True))
                    return
                if r is None:
                    problems.append(f"worker died in facet {t['facet']} seed {t.get('seed')}: " + w.stderr_tail())
                    w.kill()
                    if len(problems) > 5:
                        return
                    w = Worker(prop, stop_file, deadline, env)
                    w.recv(300)
                    continue
                if a.verbose:
                    print(f"  [{time.time()-t0:6.1f}s] {r['facet']} evals={r['evals']} nt={len(r['nontrivial'])} wall={r['wall']:.1f}"
                          + (" VIOLATION" if "violation" in r else "") + (" HARNESS" if "harness_error" in r else ""), flush=True)
                with lock:
                    results.append(r)
                    if "violation" in r:
                        viol.append(r)
                        open(stop_file, "w").close()
        finally:
            w.kill()

    nworkers = max(1, min(a.workers, len(order)))
    threads = [threading.Thread(target=drive) for _ in range(nworkers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # ---- known findings
    known_lines = []
    for k in known_findings():
        if k["property"] != prop:
            continue
        if a.facet:
            continue
        res, msg = replay_in_process(prop, k["facet"], k["spec"], env, timeout=200)
        if res == "violation":
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            print(f"note: listed finding no longer reproduces ({res}): {k['what']}")

    # ---- violations: confirm in a fresh process
    confirmed, unconfirmed = [], []
    seen = set()
    for r in viol:
        key = json.dumps(r["violation"]["spec"], sort_keys=True)
        if key in seen or len(confirmed) >= 3:
            continue
        seen.add(key)
        res, msg = replay_in_process(prop, r["facet"], r["violation"]["spec"], env, timeout=150)
        if res == "violation":
            r["violation"]["msg"] = msg
            confirmed.append(r)
        else:
            unconfirmed.append((r, res, msg))

    harness = [r["harness_error"] for r in results if "harness_error" in r]
    fstats = {}
    nt_all = set()
    samples = []
    for r in results:
        fs = fstats.setdefault(r["facet"], dict(evaluations=0, distinct_nontrivial=set(), rejected=0, skipped_by_budget=0, labels={}, wall_s=0.0))
        fs["evaluations"] += r["evals"]
        fs["rejected"] += r["rejected"]
        fs["skipped_by_budget"] += r["skipped"]
        fs["wall_s"] += r["wall"]
        for l, c in r["labels"].items():
            fs["labels"][l] = fs["labels"].get(l, 0) + c
        fs["distinct_nontrivial"].update(r["nontrivial"])
        if r["samples"] and sum(1 for s in samples if s["facet"] == r["facet"]) < 2:
            samples.append(dict(facet=r["facet"], spec=r["samples"][-1]))
    for n, fs in fstats.items():
        nt_all.update(f"{n}:{h}" for h in fs["distinct_nontrivial"])
        fs["distinct_nontrivial"] = len(fs["distinct_nontrivial"])
        fs["wall_s"] = round(fs["wall_s"], 2)
    total = sum(fs["evaluations"] for fs in fstats.values())
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=info["level"],
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=len(nt_all),
            rule=info["rule"],
            samples=samples[:24],
            facets=fstats,
            rejected=sum(fs["rejected"] for fs in fstats.values()),
            skipped_by_budget=sum(fs["skipped_by_budget"] for fs in fstats.values()),
            enumerated_specs=sum(len(f["enum"]) for f in facets),
            unconfirmed=len(unconfirmed),
            known_findings=len(known_lines),
        ),
        assumptions=info["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n, fs in sorted(fstats.items()):
        top = dict(sorted(fs["labels"].items(), key=lambda kv: -kv[1])[:12])
        print(f"  {n}: evaluations={fs['evaluations']} nontrivial={fs['distinct_nontrivial']} rejected={fs['rejected']} skipped={fs['skipped_by_budget']} cpu={fs['wall_s']}s labels={top}")
    print(f"{prop} tier={tier} seed={seed}: {total} cases, {len(nt_all)} distinct non-trivial, {ev['wall_s']} s")
    for l in known_lines:
        print(l)
    if confirmed:
        for r in confirmed:
            path = write_replay(prop, r["violation"], r["facet"])
            print("---", r["facet"], json.dumps(r["violation"]["spec"])[:1500])
            print(r["violation"]["msg"][-1500:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for r, res, msg in unconfirmed:
        print("UNCONFIRMED (not reproducible in a fresh process):", r["facet"], json.dumps(r["violation"]["spec"])[:800], r["violation"]["msg"][:800], res, msg[:300])
    if harness or problems or (not total):
        for h in harness[:3]:
            print("HARNESS ERROR:", h.get("spec"), h["msg"][-2500:])
        for p in problems[:3]:
            print("PROBLEM:", p[-2500:])
        if harness or not total:
            return 2
        if len(problems) > 3:
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
