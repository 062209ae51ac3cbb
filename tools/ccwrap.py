#!/usr/bin/env python3
"""ccwrap.py CXX ARGS... -c SRC -o OUT: compile through a cache keyed by the preprocessed source (for mutate.py only)."""
import sys, subprocess, hashlib, os, shutil
a = sys.argv[1:]
if "-c" not in a: sys.exit(subprocess.run(a).returncode)
out = a[a.index("-o") + 1]; src = a[a.index("-c") + 1]
flags = [x for x in a if x not in (out, src, "-o") and not x.startswith("-I") and "/" not in x]
pre = [x for i, x in enumerate(a) if x not in ("-c", "-o", out)]
r = subprocess.run(pre + ["-E", "-P"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
if r.returncode: sys.stderr.buffer.write(r.stderr[-3000:]); sys.exit(1)
h = hashlib.sha256(" ".join(flags).encode() + r.stdout).hexdigest()
c = os.environ["CCWRAP_DIR"]; os.makedirs(c, exist_ok=True)
o = f"{c}/{h}.o"
if not os.path.exists(o):
    r = subprocess.run(a)
    if r.returncode: sys.exit(r.returncode)
    shutil.copy(out, f"{o}.{os.getpid()}"); os.rename(f"{o}.{os.getpid()}", o)
else: shutil.copy(o, out)
