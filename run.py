#!/opt/venv/bin/python
"""python run.py <property> [--tier quick|thorough] [--seed N] [--case NAME] [--replay FILE] [--jobs N]"""
import argparse
import glob
import importlib.util
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(
    PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", HF_HUB_OFFLINE="1", HF_DATASETS_OFFLINE="1",
    TRANSFORMERS_OFFLINE="1", HF_HUB_DISABLE_TELEMETRY="1", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="",
    TF_CPP_MIN_LOG_LEVEL="3", MPLBACKEND="Agg", AWS_DEFAULT_REGION="us-east-1", AWS_EC2_METADATA_DISABLED="true",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TOKENIZERS_PARALLELISM="false",
    NUMBA_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY="/tmp/.verif-hypothesis", PYTHONWARNINGS="ignore",
    XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)


def _load(prop):
    sys.path.insert(0, os.path.join(HERE, "lib"))
    files = glob.glob(os.path.join(HERE, "checks", f"{prop}_*.py"))
    if len(files) != 1:
        raise SystemExit(f"no unique check module for {prop}: {files}")
    spec = importlib.util.spec_from_file_location(f"check_{prop}", files[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


def _init_worker():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # progress bars and prints of the code under test
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)


def _task(a):
    prop, name, tier, seed, shard, n_shards = a
    try:
        mod = _load(prop) if f"check_{prop}" not in sys.modules else sys.modules[f"check_{prop}"]
        import pbt

        return pbt.run_case(pbt.CASES[name], tier, seed, shard, n_shards)
    except BaseException:
        return dict(case=name, error=traceback.format_exc())


def _names(a):
    prop = a
    try:
        mod = _load(prop)
        import pbt

        return dict(
            cases={k: dict(shards=c.shards, cost=c.cost, n=c.n) for k, c in pbt.CASES.items()},
            rule=getattr(mod, "RULE", ""), assumptions=getattr(mod, "ASSUMPTIONS", []),
        )
    except BaseException:
        return dict(error=traceback.format_exc())


def _replay_task(a):
    prop, name, spec = a
    try:
        if f"check_{prop}" not in sys.modules:
            _load(prop)
        import pbt

        return pbt.run_spec(pbt.CASES[name], spec)[1], None
    except BaseException:
        return None, traceback.format_exc()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 8))
    args = ap.parse_args()
    if os.environ.get("VERIF_ENV") != "1":
        os.environ.update(ENV, VERIF_ENV="1")
        os.execv(sys.executable, [sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
    import atexit
    import multiprocessing as mp
    import shutil
    import tempfile

    # programs compiled by one worker are reused by the others, in this run only
    cache = tempfile.mkdtemp(prefix="verif-jax-")
    atexit.register(shutil.rmtree, cache, ignore_errors=True)
    os.environ.update(JAX_COMPILATION_CACHE_DIR=cache, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")

    ctx = mp.get_context("spawn")
    t0 = time.time()
    if args.replay:
        r = json.load(open(args.replay))
        with ctx.Pool(1, _init_worker) as pool:
            msg, err = pool.apply(_replay_task, ((r["property"], r["case"], r["spec"]),))
        if err:
            print(err)
            sys.exit(2)
        if msg:
            print(f"VIOLATION property={r['property']} replay={args.replay}\n{msg}")
            sys.exit(1)
        print("holds")
        sys.exit(0)

    with ctx.Pool(args.jobs, _init_worker) as pool:
        info = pool.apply(_names, (args.prop,))
        if "error" in info:
            print(info["error"])
            sys.exit(2)
        tasks = []
        for name, c in info["cases"].items():
            if args.case and name not in args.case.split(","):
                continue
            if c["n"][args.tier] == 0:  # only replayed
                continue
            k = c["shards"][args.tier]
            tasks += [(c["cost"] / k, (args.prop, name, args.tier, args.seed, i, k)) for i in range(k)]
        tasks.sort(key=lambda x: -x[0])
        results, errors, failures = [], [], {}
        for r in pool.imap_unordered(_task, [t for _, t in tasks], chunksize=1):
            if "error" in r:
                errors.append(r)
            else:
                results.append(r)
                if r["failure"]:
                    f = r["failure"]
                    old = failures.get(r["case"])
                    if old is None or len(json.dumps(f["spec"])) < len(json.dumps(old["spec"])):
                        failures[r["case"]] = f

        # known findings: the listed inputs, replayed; a listed input that still fails is printed, not reported
        known_path = os.path.join(HERE, "known_findings.json")
        known = json.load(open(known_path))["findings"] if os.path.exists(known_path) else []
        n_known = 0
        for k in known:
            if k["property"] != args.prop or (args.case and k["case"] not in args.case.split(",")):
                continue
            msg, err = pool.apply(_replay_task, ((args.prop, k["case"], k["spec"]),))
            if err:
                errors.append(dict(case=k["case"], error=err))
            elif msg:
                n_known += 1
                print(f"KNOWN-FINDING: property={args.prop} {k['what']}")

    labels, samples, per_case, ev, nt = {}, [], {}, 0, 0
    hashes = {}
    for r in results:
        ev += r["evaluations"]
        hashes.setdefault(r["case"], set()).update(r["hashes"])
        d = per_case.setdefault(r["case"], dict(evaluations=0, labels={}, cpu_s=0.0, stopped_by_budget=0))
        d["evaluations"] += r["evaluations"]
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 1)
        d["stopped_by_budget"] += 1 if r["skipped"] else 0
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for s in r["samples"][:1]:
            if not any(x["case"] == r["case"] for x in samples):
                samples.append(dict(case=r["case"], spec=s))
    for k, h in hashes.items():
        per_case[k]["distinct_nontrivial"] = len(h)
        nt += len(h)
    evidence = dict(
        property=args.prop, tier=args.tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt, rule=info["rule"], samples=samples, per_case=per_case,
            known_findings_still_failing=n_known,
        ),
        assumptions=info["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(failures),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(per_case):
        d = per_case[k]
        print(f"{args.prop} {k}: {d['evaluations']} cases, {d['distinct_nontrivial']} non-trivial, {d['cpu_s']} cpu-s"
              + (f", {d['stopped_by_budget']} shard(s) stopped by budget" if d["stopped_by_budget"] else ""))
    for name, f in sorted(failures.items()):
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay", f"{args.prop}-{name}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=args.prop, **f), fh, indent=1)
        print(f"VIOLATION property={args.prop} replay={path}")
        print(f"  {f['message'][:1500]}")
    if failures:
        sys.exit(1)
    if errors:
        for e in errors:
            print(f"ERROR in {e['case']}:\n{e['error']}")
        sys.exit(2)
    print(f"{args.prop}: held on {ev} cases ({nt} distinct non-trivial), {evidence['wall_s']} s")


if __name__ == "__main__":
    main()
