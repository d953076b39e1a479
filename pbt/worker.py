"""Worker process: executes chunks (facet, seed, number of examples) sent on stdin, one JSON
line each, and answers with one JSON line per chunk on the original stdout."""

import gc
import hashlib
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_path():
    from pbt.core import REPO_SRC

    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    vendor = os.path.join(VERIF, "vendor")
    if vendor not in sys.path:
        sys.path.append(vendor)


def load(prop):
    from pbt.core import REPO_SRC

    mod = importlib.import_module(f"pbt.props.{prop.lower()}")
    import qrisp

    if not os.path.abspath(qrisp.__file__).startswith(REPO_SRC):
        raise SystemExit(f"qrisp imported from {qrisp.__file__}, expected {REPO_SRC}")
    return mod


class Stop(BaseException):
    pass


SHRINK_SECONDS = 40


def run_chunk(facet, task, stop_file, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    from pbt.core import HarnessError, Reject, Violation, canon, run_check

    st = dict(evals=0, rejected=0, labels={}, nontrivial=set(), samples=[], skipped=0, excluded=0)
    fail = {"specs": {}, "first": None, "best": None, "msg": None}
    harness = {}

    def body(spec):
        msg = evaluate(spec)
        if msg is not None:
            raise Violation(msg)

    def evaluate(spec):
        """None, or the message of the violation (single raise site in body: one origin for Hypothesis)."""
        if harness:
            return
        key = canon(spec)
        if key in fail["specs"]:
            return fail["specs"][key]
        now = time.time()
        if fail["first"] is not None:
            if now - fail["first"] > SHRINK_SECONDS or now > deadline + 60:
                return
        elif now > deadline or os.path.exists(stop_file):
            st["skipped"] += 1
            return
        st["evals"] += 1
        try:
            labels = run_check(facet, spec)
        except Reject:
            st["rejected"] += 1
            return
        except HarnessError as e:
            harness["msg"] = str(e)
            harness["spec"] = key
            return
        except Violation as e:
            if fail["first"] is None:
                fail["first"] = time.time()
            fail["specs"][key] = str(e)
            if fail["best"] is None or len(key) <= len(fail["best"]):
                fail["best"] = key
                fail["msg"] = str(e)
            return str(e)
        for l in set(labels):
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if labels:
            h = hashlib.md5(key.encode()).hexdigest()[:12]
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append(key[:1500])

    t0 = time.time()
    if "specs" in task:
        for sp in task["specs"]:
            try:
                body(sp)
            except Violation:
                break
    else:
        test = settings(
            max_examples=task["n"],
            deadline=None,
            database=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.target, Phase.shrink],
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
            report_multiple_bugs=False,
        )(hypothesis.given(facet.get_strategy())(body))
        test = hypothesis.seed(task["seed"])(test)
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.HypothesisException as e:
            if fail["best"] is None:
                harness["msg"] = f"hypothesis: {type(e).__name__}: {e}"
                harness["spec"] = None
        except BaseException as e:
            import traceback

            if fail["best"] is None:
                harness["msg"] = traceback.format_exc()[-3000:]
                harness["spec"] = None
    out = dict(
        facet=facet.name,
        evals=st["evals"],
        rejected=st["rejected"],
        skipped=st["skipped"],
        labels=st["labels"],
        nontrivial=sorted(st["nontrivial"]),
        samples=st["samples"],
        wall=time.time() - t0,
        seed=task.get("seed"),
    )
    if fail["best"] is not None:
        out["violation"] = dict(spec=json.loads(fail["best"]), msg=fail["msg"])
    if harness:
        out["harness_error"] = harness
    return out


def main():
    prop, stop_file, deadline = sys.argv[1], sys.argv[2], float(sys.argv[3])
    real_out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    setup_path()
    try:
        mod = load(prop)
    except BaseException as e:
        import traceback

        from pbt.core import from_sut

        real_out.write(
            json.dumps({"load_error": traceback.format_exc()[-4000:], "sut": isinstance(e, Exception) and from_sut(e)})
            + "\n"
        )
        real_out.flush()
        return
    facets = {f.name: f for f in mod.FACETS}
    real_out.write(json.dumps({"ready": True}) + "\n")
    real_out.flush()
    for line in sys.stdin:
        task = json.loads(line)
        if task.get("quit"):
            break
        out = run_chunk(facets[task["facet"]], task, stop_file, deadline)
        real_out.write(json.dumps(out) + "\n")
        real_out.flush()
        gc.collect()
        try:
            if "jax" in sys.modules and task.get("clear_jax"):
                import jax

                jax.clear_caches()
        except Exception:
            pass
    os._exit(0)


if __name__ == "__main__":
    main()
