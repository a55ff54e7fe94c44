"""Plants a bug: python3 tools/plant.py SPEC.py... (scratch copies under /tmp/pl; results in seeded/<id>).

A spec defines ID, PROPERTY, EDITS = [(file below src/megatron/energon, old, new)], NEEDS, BREAKS, DEMO (python source;
`h` is the helper module beside it).
"""
import json, os, runpy, shutil, subprocess, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
TESTS = ["tests/test_crudedataset.py", "tests/test_epathlib.py", "tests/test_transforms.py"]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(spec):
    s = runpy.run_path(spec)
    bid = s["ID"]
    copy = Path("/tmp/pl") / bid
    shutil.rmtree(copy, ignore_errors=True)
    copy.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", str(REPO), str(copy)], check=True)
    out = VERIF / "seeded" / bid
    try:
        for f, old, new in s["EDITS"]:
            p = copy / "src/megatron/energon" / f
            t = p.read_text()
            assert t.count(old) == 1, (f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        diff = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE, text=True).stdout
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], copy).stdout.split()[0]
        # the removed lines must be original ones
        cur, line, own = None, 0, []
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                line = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-"):
                b = sh(["git", "blame", "-s", "-l", f"-L{line},{line}", "HEAD", "--", cur], copy).stdout
                if not b.lstrip("^").startswith(base[:30]):
                    own.append(b.strip())
                line += 1
            elif l.startswith(" "):
                line += 1
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport helper as h\n" + s["DEMO"].lstrip("\n"))
        shutil.copy(VERIF / "tools/demo_helper.py", out / "helper.py")
        (out / "demo.sh").write_text('#!/bin/bash\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 200 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        clean = sh(["bash", str(out / "demo.sh")], REPO)
        bad = sh(["bash", str(out / "demo.sh")], copy)
        env = dict(os.environ, PYTHONPATH=str(copy / "src"), PYTHONDONTWRITEBYTECODE="1")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", *TESTS], copy, env=env)
        last = t.stdout.strip().splitlines()[-1]
        ok = clean.returncode == 0 and bad.returncode not in (0, 124) and t.returncode == 0 and not own
        print(f"{bid} [{s['PROPERTY']}] {'OK' if ok else 'BAD'}: clean {clean.returncode}, patched {bad.returncode}, tests {last}", flush=True)
        if own:
            print("  own lines:", own)
        if clean.returncode:
            print("  clean:", clean.stdout[-1500:])
        print("  patched:", "\n    ".join(bad.stdout.strip().splitlines()[-3:]), flush=True)
        if "-c" in sys.argv:
            v = dict(os.environ, VP_REPO=str(copy), VERIF_SEED="1", VERIF_TIER="quick")
            for p in [s["PROPERTY"]] + s.get("ALSO", []):
                r = sh(["./check", p], VERIF, env=v)
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")][:3]
                print(f"  check {p}: rc {r.returncode}", *hit, sep="\n    ", flush=True)
        return ok
    finally:
        shutil.rmtree(copy, ignore_errors=True)


for spec in sys.argv[1:]:
    if spec != "-c":
        try:
            plant(spec)
        except Exception as e:
            print(spec, "FAILED", repr(e))
