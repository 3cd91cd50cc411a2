#!/usr/bin/env python3
"""mkbug.py SPEC.py: turn a bug specification into /verif/seeded/<id>/ and confirm it.

The spec defines id, prop, edits=[(file, old, new)], needs, breaks, demo (Go source of a main package).
  mkbug.py SPEC.py [--check]   build, run the stable tests and the demo with and without the change; --check also runs the check
  mkbug.py --recheck ID...     only run the checks against existing bugs
"""
import subprocess, sys, os, json
R = os.environ.get("R", "/repo")  # a worktree of /repo does as well
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh(f"git -C {R} checkout -- .")
DEMO = '''#!/bin/bash
# builds and runs main.go.txt as a package of the repository (through an overlay, nothing is written into it)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 3
timeout 120 "$t/demo"
'''
def check(prop, bid, secs=None):
    r = sh(f"cd {os.environ.get('V', '/verif')} && VERIF_REPO={R} ./check {prop}" + (f" --secs {secs}" if secs else ""))
    lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
    print(f"  check {prop} on {bid}: exit {r.returncode}", [l for l in lines if l.startswith("VIOLATION")][:1] or lines[-2:])
    return r.returncode
def main():
    if sys.argv[1] == "--recheck":
        for bid in sys.argv[2:]:
            d = f"/verif/seeded/{bid}"; m = json.load(open(d + "/meta.json"))
            a = sh(f"git -C {R} apply {d}/patch.diff")
            if a.returncode: print(bid, "does not apply", a.stderr); continue
            try: check(m["property"], bid)
            finally: undo()
        return
    assert not sh(f"git -C {R} status --short").stdout.strip(), "repo dirty"
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = f"/verif/seeded/{g['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in g["edits"]:
            p = f"{R}/{f}"; s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        fm = sh(f"cd {R} && gofmt -l $(git diff --name-only)").stdout
        if fm: print("gofmt:", fm)
        open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        for f in {e[0] for e in g["edits"]}:
            was = sh(f"git -C {R} show {root}:{f}").stdout.splitlines()
            old = open(f"{R}/{f}").read().splitlines()
            gone = [l[1:] for l in sh(f"git -C {R} diff -U0 {f}").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            print(f, "removed lines", len(gone), "of the original", sum(l in was for l in gone))
        open(d + "/main.go.txt", "w").write(g["demo"])
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh(os.environ.get("BASECMD", "/verif/tools/base.sh"))
        print("base:", b.stdout.strip()[-400:])
        x = sh(f"cd {R} && {d}/demo.sh"); print("demo patched:", x.returncode, (x.stdout + x.stderr).strip()[-300:])
        if "--check" in sys.argv: check(g["prop"], g["id"])
    finally:
        undo()
    x = sh(f"cd {R} && {d}/demo.sh"); print("demo clean:", x.returncode, (x.stdout + x.stderr).strip()[-300:])
main()
