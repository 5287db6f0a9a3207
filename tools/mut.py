"""development aid: run checks against a mutated copy of /repo/src
   mut.py NAME (PATCH | FILE OLD NEW) -- P01 P02 ..."""
import sys, os, subprocess, shutil
a = sys.argv[1:]
i = a.index("--")
name, what, props = a[0], a[1:i], a[i + 1:]
d = "/tmp/mut_" + name
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.o"))
if len(what) == 1:
    if what[0] != "-":
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.abspath(what[0])], cwd="/")
else:
    f = d + "/src/" + what[0]
    s = open(f).read()
    assert s.count(what[1]) >= 1, "not found"
    k = int(os.environ.get('NTH', 1))  # which occurrence
    q = s.split(what[1])
    n = what[1].join(q[:k]) + what[2] + what[1].join(q[k:])
    open(f, "w").write(n)
rc = {}
for p in props:
    e = dict(os.environ, VT_REPO=d, VT_TAG=name)
    r = subprocess.run(["python3-vt", "/verif/run.py", p], env=e, capture_output=True, text=True)
    print("%s %s rc=%d %s" % (name, p, r.returncode, r.stdout.strip()[-600:]), flush=True)
    if r.returncode not in (0, 1):
        print(r.stderr[-1500:])
os.environ.get("KEEP") or shutil.rmtree(d, ignore_errors=True)
for p in props:
    shutil.rmtree("/verif/.out/%s.%s" % (p, name), ignore_errors=True)
