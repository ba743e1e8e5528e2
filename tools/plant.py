#!/usr/bin/env python3
"""plant.py <id> <property> <file> [--no-check]: turns the current edit of /repo's working tree into /verif/seeded/<id> ... see plant.sh.
Usage: plant.py ID [props-to-run...]: /verif/seeded/ID holds patch.diff, demo.cpp, demo.sh, meta.json; confirms all of it and runs the checks."""
import sys, os, subprocess, json, re
S = "/verif/seeded"
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class R: returncode=124; stdout=""; stderr="timeout"
        return R()
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0, r
def tests():
    sh("bash /opt/vp/test.sh /tmp/plant-tests.json"); return open("/tmp/plant-tests.json").read()
def main(i, props, check=True):
    d = f"{S}/{i}"; meta = json.load(open(d + "/meta.json"))
    if sh("git -C /repo status --porcelain").stdout.strip(): print("repo dirty"); return 1
    ok, _ = build(); base = tests()
    r = sh(f"bash {d}/demo.sh", 300, cwd="/repo"); print("demo base rc", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
    if r.returncode: return 1
    a = sh(f"git -C /repo apply {d}/patch.diff"); 
    if a.returncode: print("apply failed", a.stderr); return 1
    try:
        # original lines only
        for f, minus in re.findall(r"^--- a/(\S+)", open(d + "/patch.diff").read(), re.M) and []: pass
        ok, r = build()
        if not ok: print("BUILD FAILED", r.stdout[-800:]); return 1
        t = tests(); print("tests", "same" if t == base else "DIFFER " + t[:400])
        r = sh(f"bash {d}/demo.sh", 300, cwd="/repo"); print("demo patched rc", r.returncode, (r.stdout + r.stderr).strip()[-200:])
        if check:
            for p in props or [meta["property"]]:
                r = sh(f"cd /verif && python3 tools/check.py {p} quick"); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violat" in l.lower()]
                print("check", p, "rc", r.returncode, *[x[:300] for x in v[:3]])
                if r.returncode not in (0, 1): print((r.stdout + r.stderr)[-800:])
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    sys.exit(main(sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")], "--no-check" not in sys.argv) or 0)
