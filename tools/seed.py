"""Plant bugs: python3 tools/seed.py SPEC.py  -- SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks)].
Applies each to /repo, runs the test-suite, the demonstration and the property's check, undoes it, and keeps it under seeded/<id>/."""
import json, os, runpy, subprocess, sys
R, ENV = "/repo", dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def undo():
    sh("git", "-C", R, "checkout", "--", ".")


def main(spec, only):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert not sh("git", "-C", R, "status", "--porcelain").stdout, "dirty /repo"
        d = f"/verif/seeded/{b['id']}"
        bad = None
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.py", "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                    'H=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH=$PWD exec /opt/venv/bin/python "$H/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=R, env=ENV)
        if r0.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", (r0.stdout + r0.stderr)[-600:])
            continue
        try:
            for f, old, new in b["edits"]:
                p = f"{R}/pycircstat2/{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"edit matches {s.count(old)} times: {old[:60]!r}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad is None:
                open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
                r1 = sh("bash", d + "/demo.sh", cwd=R, env=ENV)
                sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
                c = sh("python3", "/verif/tools/cmp.py", "/tmp/seed_out.json")
                k = sh("python3", "check.py", b["prop"], cwd="/verif")
                viol = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
                print(b["id"], b["prop"], "demo", "ok" if r1.returncode else "NOT-FAILING", "| tests", c.stdout.strip()[:200], "| check",
                      "CAUGHT" if k.returncode == 1 and viol else f"missed rc={k.returncode} {k.stdout[-150:]}")
                if k.returncode == 1:
                    print("    ", "\n     ".join(x[:220] for x in k.stdout.splitlines()[:3]))
        finally:
            undo()
        if bad:
            print(b["id"], "BAD", bad)


main(sys.argv[1], sys.argv[2:])
