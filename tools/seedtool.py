#!/usr/bin/env python3
"""Make and verify planted bugs from a spec file (a list of dicts), in a scratch worktree. Not used by any check.

usage: seedtool.py make SPEC.py | try [ID ...]
"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def stable(wt):
    out = os.path.join(wt, "..", "t.json")
    b = sh(f"sed 's#/repo#{wt}#g' /opt/vp/build_check.py > ../bc.py; sed 's#/repo#{wt}#g; s#/opt/vp/build_check.py#{wt}/../bc.py#' /opt/vp/build.sh > ../b.sh; sed 's#/repo#{wt}#g' /opt/vp/test.sh > ../t.sh; bash ../b.sh && bash ../t.sh {out}", wt)
    try:
        got = json.load(open(out))
    except Exception:
        return None, b.stdout[-500:] + b.stderr[-500:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = set(base) - set(got["passed"])
    return not missing, sorted(missing)[:5]


def main():
    if sys.argv[1] == "make":
        specs = eval(open(sys.argv[2]).read())
        for s in specs:
            tmp = tempfile.mkdtemp(prefix="seed")
            wt = os.path.join(tmp, "repo")
            try:
                shutil.copytree("/repo", wt, symlinks=True)
                sh("git checkout -q -- . && git clean -fdq", wt)
                for f, old, new in s["edits"]:
                    p = os.path.join(wt, f)
                    t = open(p).read()
                    assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                    open(p, "w").write(t.replace(old, new))
                diff = sh("git diff", wt).stdout
                # lines removed must be original
                origbad = []
                for f, old, new in s["edits"]:
                    base = sh(f"git show d7a268a:{f}", wt).stdout.splitlines()
                    for l in diff.splitlines():
                        if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                            origbad.append(l)
                d = os.path.join(tmp, "demo")
                os.makedirs(d)
                open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
                sh_ = "#!/bin/bash\nexport PYTHONPATH=\"$PWD\" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n" if not s.get("sh") else s["sh"]
                open(os.path.join(d, "demo.sh"), "w").write(sh_)
                clean = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
                bad = sh(["bash", os.path.join(d, "demo.sh")], wt)
                ok, miss = stable(wt)
                verdict = clean.returncode == 0 and bad.returncode != 0 and ok and not origbad
                print(s["id"], "OK" if verdict else "REJECTED", "clean", clean.returncode, "patched", bad.returncode, "tests", ok, miss if not ok else "", "notoriginal:" + str(origbad[:2]) if origbad else "")
                if clean.returncode:
                    print("  clean:", (clean.stdout + clean.stderr)[-800:])
                if not verdict and bad.returncode == 0:
                    print("  patched: passes", bad.stdout[-300:])
                if verdict:
                    o = os.path.join(V, "seeded", s["id"])
                    os.makedirs(o, exist_ok=True)
                    open(os.path.join(o, "patch.diff"), "w").write(diff)
                    for f in ("demo.py", "demo.sh"):
                        shutil.copy(os.path.join(d, f), os.path.join(o, f))
                    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
            finally:
                shutil.rmtree(tmp)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            o = os.path.join(V, "seeded", i)
            prop = json.load(open(os.path.join(o, "meta.json")))["property"]
            tmp = tempfile.mkdtemp(prefix="try")
            wt = os.path.join(tmp, "repo")
            try:
                shutil.copytree("/repo", wt, symlinks=True)
                a = sh(["git", "apply", os.path.join(o, "patch.diff")], wt)
                if a.returncode:
                    print(i, prop, "DOES NOT APPLY", a.stderr[:200])
                    continue
                r = sh([os.path.join(V, "check"), prop, "quick"], V, env={**os.environ, "MC_REPO": wt, "VERIF_SEED": "1", "MC_HOME": tmp})
                caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
                print(i, prop, "CAUGHT" if caught else f"MISSED rc={r.returncode}", r.stdout.strip().splitlines()[-1][:150], flush=True)
                if caught and "-v" in os.environ.get("SEEDV",""):
                    print("    ", "\n     ".join(x[:200] for x in r.stdout.splitlines()[1:4]), flush=True)
            finally:
                shutil.rmtree(tmp)


main()
