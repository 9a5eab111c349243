#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns the bug descriptions of SPEC.py into /verif/seeded/ID, keeping only those whose demonstration passes here and fails with the change
and whose tree still builds and passes the stable tests (done in /repo, undone afterwards)."""
import sys, os, subprocess, shutil, json
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
spec = {}; exec(open(sys.argv[1]).read(), spec); only = sys.argv[2:]
for b in spec["BUGS"]:
    bid, prop, edits, needs, what, demo = b
    if only and bid not in only: continue
    if not only and os.path.exists(f"{V}/seeded/{bid}/ok"): continue
    assert not sh(f"git -C {R} status --porcelain").stdout.strip()
    d = f"{V}/seeded/{bid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copy(f"{V}/tools/demo.sh", d); open(f"{d}/demo.cpp", "w").write(spec["HEAD"] + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(["bash", f"{d}/demo.sh"], cwd=R)
    try:
        for f, old, new in edits:
            p = f"{R}/base/{f}"; raw = open(p, newline="").read(); nl = "\r\n" if "\r\n" in raw else "\n"; s = raw.replace("\r\n", "\n")
            assert s.count(old) == 1, (bid, f, s.count(old)); s = s.replace(old, new); open(p, "w", newline="").write(s.replace("\n", nl) if nl != "\n" else s)
        diff = subprocess.run(["git", "-C", R, "diff", "--binary"], stdout=subprocess.PIPE).stdout; open(f"{d}/patch.diff", "wb").write(diff)
        own = 0; line = 0; cur = None  # removed lines that are not the original repository's
        for l in diff.decode(errors="replace").splitlines():
            if l.startswith("--- a/"): cur = l[6:].strip()
            elif l.startswith("@@"): line = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                bl = sh(["git", "-C", R, "blame", "-s", "-L", f"{line},{line}", "HEAD", "--", cur]).stdout
                own += not bl.lstrip("^").startswith("8bf72c5"); line += 1
            elif l.startswith(" "): line += 1
        r1 = sh(["bash", f"{d}/demo.sh"], cwd=R)
        rb = sh(["bash", "/opt/vp/build.sh"], cwd=R); rt = sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"], cwd=R)
        try: res = json.dumps(json.load(open("/tmp/plant.json")))[:300]
        except Exception as e: res = str(e)
        tests = rt.stdout.count("PASS")
        rc = None
        if "--check" in only or True:
            c = sh([f"{V}/check.py", prop]); rc = c.returncode; tail = c.stdout[-600:]
    finally:
        sh(f"git -C {R} checkout -- .")
    good = r0.returncode == 0 and r1.returncode not in (0, 3) and rb.returncode == 0 and all(x not in res for x in ('"failed": ["',))
    print(f"{bid}: demo clean {r0.returncode} planted {r1.returncode} build {rb.returncode} tests {res} | check {rc} {'CAUGHT' if rc == 1 else 'MISSED'} {'OWN-LINES ' + str(own) if own else ''} {'' if good else 'BAD ' + r0.stdout[-300:] + r1.stdout[-300:] + rb.stdout[-300:]}", flush=True)
    if rc != 1: print(tail)
    if not good: shutil.rmtree(d)
sh("cd /repo && bash /opt/vp/build.sh")
