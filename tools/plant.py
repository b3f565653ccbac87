"""Try planted bugs in private copies of /repo: python tools/plant.py [--tests] [--no-check] ID...

Each seeded/<ID>/patch.diff is applied to a copy of /repo that is bind-mounted over /repo in a private mount namespace;
demo.sh must pass without and fail with it, the check of its property must report a violation, the stable tests pass."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, script, **kw):
    rep, ev = copy + ".rep", copy + ".ev"
    for d in (rep, ev):
        os.makedirs(d, exist_ok=True)
    cmd = f"mount --bind {copy} /repo && mount --bind {rep} /opt/vp/report && mount --bind {ev} {HERE}/evidence && {script}"
    return subprocess.run(["unshare", "-m", "bash", "-c", cmd], capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    tests, check = "--tests" in args, "--no-check" not in args
    tier = "quick"
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    base = tempfile.mkdtemp(prefix="plant.")
    try:
        for i in ids:
            d = f"{HERE}/seeded/{i}"
            meta = json.load(open(d + "/meta.json"))
            copy = f"{base}/{i}"
            out = []
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
            demo = f"{base}/{i}.demo"
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            r = ns(copy, f"cd /repo && timeout 300 bash {demo}/demo.sh")
            out.append("demo passes without" if r.returncode == 0 else "DEMO FAILS WITHOUT THE PATCH\n" + r.stdout[-500:] + r.stderr[-1500:])
            r = subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], capture_output=True, text=True)
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stderr)
                continue
            r = ns(copy, "bash /opt/vp/build.sh") if tests else None
            if r is not None:
                out.append("builds" if r.returncode == 0 else "BUILD FAILS " + r.stderr[-500:])
            r = ns(copy, f"cd /repo && timeout 300 bash {demo}/demo.sh")
            out.append("demo fails with" if r.returncode else "DEMO DOES NOT NOTICE")
            if check:
                r = ns(copy, f"cd {HERE} && VERIF_SEED=1 VERIF_TIER={tier} timeout 900 /opt/venv/bin/python run.py {meta['property']}")
                v = [l for l in r.stdout.split("\n") if l.startswith(f"VIOLATION property={meta['property']} ")]
                out.append("CAUGHT" if r.returncode == 1 and v else f"MISSED (exit {r.returncode}) " + (r.stdout + r.stderr)[-300:])
                if v:
                    out.append(r.stdout[r.stdout.index(v[0]):][:300].replace("\n", " "))
            if tests:
                for k in range(2):
                    ns(copy, f"bash /opt/vp/test.sh {copy}.rep/out.json")
                    res = json.load(open(copy + ".rep/out.json"))
                    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                    bad = [t for t in stable if t not in set(res.get("passed", []))]
                    if not bad:
                        break
                out.append("tests pass" if not bad else f"TESTS FAIL {bad[:3]}")
            print(i, "|", " | ".join(out), flush=True)
            shutil.rmtree(copy)
    finally:
        shutil.rmtree(base)


main()
