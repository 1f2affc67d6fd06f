"""Make and confirm planted bugs.  usage: seed.py SPEC.py [id ...]   (SPEC defines SEEDS: list of dicts)

Each dict: id, property, file (under /repo), edits [(old, new), ...], demo (python source), needs, breaks.
The change is confirmed in a scratch copy: it builds, the stable tests pass, the demo passes before and fails after.
"""
import json, os, shutil, subprocess, sys, runpy, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env))


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if 0 else None
    for s in seeds:
        if want and s["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            one(s, tmp)
        finally:
            shutil.rmtree(tmp)


def one(s, tmp):
    repo = os.path.join(tmp, "repo")
    sh("git clone -q /repo %s" % repo, tmp)
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.py"), "w") as fh:
        fh.write(s["demo"].lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write('#!/bin/bash\n# run with cwd at the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                 'exec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    before = sh("timeout 250 bash %s/demo.sh" % d, repo)
    files = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    for f, edits in files.items():
        p = os.path.join(repo, f)
        txt = open(p).read()
        for old, new in edits:
            assert txt.count(old) >= 1, (s["id"], "NOT FOUND", old)
            if txt.count(old) > 1:
                print(s["id"], "note: several matches of", repr(old)[:60])
            txt = txt.replace(old, new, 1)
        compile(txt, p, "exec")
        open(p, "w").write(txt)
    diff = sh("git diff", repo).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
    for f in files:
        old = set(sh("git show %s:%s" % (base, f), repo).stdout.splitlines())
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l in old and l.strip() for l in gone):
            print(s["id"], "NO ORIGINAL LINE CHANGED in", f)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    after = sh("timeout 250 bash %s/demo.sh" % d, repo)
    os.makedirs(repo + "/dashlivesim/tests/out_test", exist_ok=True)
    tst = sh("%s -m pytest dashlivesim/tests -q -p no:cacheprovider -x 2>&1 | tail -3" % PY, repo, TZ="UTC",
             PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    ok = before.returncode == 0 and after.returncode != 0 and "107 passed" in tst.stdout and "failed" not in tst.stdout
    chk = subprocess.run(["timeout", "800", "python3", "-m", "sa.run", s["property"]], cwd=VERIF,
                         env=dict(os.environ, SA_REPO=repo), capture_output=True, text=True)
    print("%-28s %s %s" % (s["id"], "OK " if ok else "BAD",
                        "caught" if chk.returncode == 1 and "VIOLATION property=" + s["property"] in chk.stdout else "MISSED"))
    if not ok:
        print("  before", before.returncode, before.stderr[-600:], before.stdout[-300:], "| after", after.returncode, after.stderr[-400:],
              "| tests", tst.stdout)
    if chk.returncode != 1:
        print("  ", chk.stdout[:600])


main()
