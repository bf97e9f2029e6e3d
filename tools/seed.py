"""Plants one bug in a scratch copy, confirms it, and stores it under seeded/.

usage: seed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)...], DEMO (python), NEEDS, BREAKS)
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec, run_checks=True):
    d = runpy.run_path(spec)
    for item in d.get("SEEDS") or [d]:
        one(item, run_checks)


def one(d, run_checks):
    sid = d["ID"]
    wt = tempfile.mkdtemp(prefix="seedwt")
    try:
        sh(f"cp -a /repo/src /repo/tests /repo/pyproject.toml {wt}/ && rm -rf {wt}/.git && cd {wt} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm base")
        for f, old, new in d["EDITS"]:
            p = os.path.join(wt, "src/pysatl_criterion", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            base = sh(f"cd /repo && git show $(git rev-list --max-parents=0 HEAD):src/pysatl_criterion/{f}").stdout
            if old not in base:
                print(f"{sid}: WARNING changes text that is not in the original repository")
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"cd {wt} && git diff").stdout
        env = dict(os.environ, PYTHONPATH=f"{wt}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = sh(f"cd {wt} && /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider --timeout=300 --basetemp={wt}/tmp 2>&1 | tail -4", env=env)
        ok_tests = " passed" in t.stdout and "failed" not in t.stdout and "error" not in t.stdout.lower()
        out = os.path.join(VERIF, "seeded", sid)
        demo = tempfile.mkdtemp(prefix="seeddemo")
        open(os.path.join(demo, "demo.py"), "w").write(d["DEMO"])
        open(os.path.join(demo, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        base = sh(f"cd /repo && bash {demo}/demo.sh")
        bug = sh(f"cd {wt} && bash {demo}/demo.sh", env=env)
        ok = ok_tests and base.returncode == 0 and bug.returncode != 0
        print(f"{sid}: tests={'ok' if ok_tests else 'FAIL'} demo base={base.returncode} bug={bug.returncode}  {'KEPT' if ok else 'REJECTED'}")
        if not ok:
            print(t.stdout[-1500:] if not ok_tests else "", base.stdout[-800:], base.stderr[-800:], bug.stdout[-300:], bug.stderr[-500:])
            return
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(demo)
        if run_checks:
            e = dict(env, SX_REPO_SRC=f"{wt}/src")
            for pid in [d["PROPERTY"]] + d.get("ALSO", []):
                r = sh(f"cd {VERIF} && ./check {pid}", env=e)
                lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith(pid) or "INCONC" in l]
                print(f"   {pid}: exit {r.returncode}  {lines[:1]} {lines[-1:] if lines else r.stderr[-400:]}")
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1], "--nocheck" not in sys.argv)
