#!/usr/bin/env python3
"""Helper used while planting bugs: makes /verif/seeded/<id>/ from a definition file, in a scratch
worktree, and confirms it (builds, stable test passes, demo passes without and fails with it).
usage: mkseed.py bugs.py [id...]   (definitions: list BUGS of dicts)"""
import sys, os, subprocess, json, shutil, runpy
root = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
defs = runpy.run_path(sys.argv[1])["BUGS"]
want = set(sys.argv[2:])
for b in defs:
    if want and b["id"] not in want: continue
    d = f"{root}/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    # patch from edits on /repo's HEAD
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    try:
        for f, old, new in b["edits"]:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    tpl = b.get("template", "demo")
    for f in os.listdir(f"{root}/tools/{tpl}"):
        if f != "main.rs" and os.path.isfile(f"{root}/tools/{tpl}/{f}"): shutil.copy(f"{root}/tools/{tpl}/{f}", d)
    for name, text in b["files"].items():
        open(f"{d}/{name}", "w").write(text)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # confirm, in /repo itself (restored afterwards)
    sh(". /opt/vp/env.sh; cargo build --workspace --offline", cwd="/repo", executable="/bin/bash")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        bld = sh(". /opt/vp/env.sh; cargo build --workspace --offline 2>&1 | tail -30; exit ${PIPESTATUS[0]}", cwd="/repo", executable="/bin/bash")
        t = sh("bash /opt/vp/test.sh /tmp/t.json; cat /tmp/t.json") if b.get("test", True) else None
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0.returncode == 0 and r1.returncode not in (0, 2) and bld.returncode == 0
    print(b["id"], "OK" if ok else "BAD", "clean", r0.returncode, "patched", r1.returncode, "build", bld.returncode, "|", (r1.stderr or r1.stdout).strip()[-300:].replace("\n", " / "))
    if t is not None: print("   tests:", t.stdout[-200:].replace("\n"," "))
    if not ok: print(r0.stdout[-2000:], r0.stderr[-3000:], bld.stdout[-1500:] if bld.returncode else "")
    sys.stdout.flush()
