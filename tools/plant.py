#!/usr/bin/env python3
"""plant.py ID: (re)makes /verif/seeded/ID from /tmp/bugs/ID.py and confirms it in a scratch copy.

The script defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (a main.rs)."""
import json, os, shutil, subprocess, sys
ID = sys.argv[1]
g = {}
exec(open("/tmp/bugs/%s.py" % ID).read(), g)
W = "/tmp/wt"
if not os.path.exists(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
for f, old, new in g["EDITS"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) >= 1, (f, "not found", old)
    assert s.count(old) == 1, (f, "ambiguous", s.count(old))
    open(p, "w").write(s.replace(old, new))
D = "/verif/seeded/" + ID
os.makedirs(D, exist_ok=True)
diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
open(D + "/patch.diff", "w").write(diff)
open(D + "/main.rs", "w").write(g["DEMO"].lstrip("\n"))
open(D + "/demo.sh", "w").write(open("/verif/tools/demo.sh").read())
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
# originals only?
base = subprocess.check_output(["git", "-C", W, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
for f in sorted(set(e[0] for e in g["EDITS"])):
    bl = subprocess.check_output(["git", "-C", W, "blame", "-l", "HEAD", "--", f], text=True).splitlines()
    mine = {i + 1 for i, l in enumerate(bl) if not l.lstrip("^").startswith(base[:39]) and base[:39] not in l[:42]}
    n = 0
    for l in diff.splitlines():
        if l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            if n in mine and ("b/" + f) in diff:
                print("note: removes a line of a fix:", f, n, l)
            n += 1
        elif not l.startswith("+"):
            n += 1
env = dict(os.environ, CARGO_NET_OFFLINE="true")
env["RUSTFLAGS"] = "--cap-lints=allow"
env["CARGO_TARGET_DIR"] = "/tmp/wt-target"
r = subprocess.run(["bash","-c","ulimit -v 16000000; timeout 180 cargo test --offline -q"], cwd=W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ok = r.returncode == 0
print(ID, "tests with the change:", "pass" if ok else "FAIL\n" + r.stdout[-3000:])
def demo(repo):
    r = subprocess.run(["bash", D + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
a = demo("/repo"); b = demo(W)
print(ID, "demo unchanged:", a[0], "" if a[0] == 0 else a[1][-1500:])
print(ID, "demo changed:", b[0], (b[1].strip().splitlines() or [""])[-1][:200])
print(ID, "CONFIRMED" if ok and a[0] == 0 and b[0] != 0 else "NOT CONFIRMED")
