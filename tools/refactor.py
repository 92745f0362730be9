#!/usr/bin/env python3
"""Behaviour-preserving edits: every one must leave the checks quiet.

usage: refactor.py [-j N] [SUBSTRING...]

Each edit is applied alone to a scratch copy of /repo, compiled, and the units it touches are proved again.
A unit may stay `proved`, or become `lost` (undecided, quiet); `failed` is a false alarm of the machinery.
"""
import os, subprocess, sys, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
R = []


def r(name, units, file, *edits):
    R.append((name, units.split(), "src/" + file, edits))


for f in sorted(os.listdir(os.path.join(HERE, "refactors"))):
    if f.endswith(".py"):
        exec(open(os.path.join(HERE, "refactors", f)).read())


def run(k, slot):
    name, units, file, edits = R[k]
    d = slot
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/"], check=True)
    p = os.path.join(d, file)
    t = open(p).read()
    for old, new in edits:
        if t.count(old) != 1:
            return name, "BAD EDIT (%d matches): %s" % (t.count(old), old.strip().split("\n")[0])
        t = t.replace(old, new)
    open(p, "w").write(t)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="--cap-lints allow", CARGO_TARGET_DIR=d + ".target")
    c = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True)
    if c.returncode:
        return name, "DOES NOT COMPILE\n" + c.stderr[:300]
    out = []
    for u in units:
        e = dict(os.environ, VP_REPO=d)
        c = subprocess.run([sys.executable, "check.py", "--unit", u], cwd=VERIF, env=e, capture_output=True, text=True)
        st = [l for l in c.stdout.split("\n") if '"state"' in l]
        s = st[0].split('"')[3] if st else "??"
        out.append(u + ":" + s)
        open("/tmp/refactor.%s.%s" % (name, u), "w").write(c.stdout + c.stderr)
    return name, " ".join(out)


def main():
    a = sys.argv[1:]
    j = 4
    if a and a[0] == "-j":
        j = int(a[1]); a = a[2:]
    ks = [k for k in range(len(R)) if not a or any(x in R[k][0] for x in a)]
    base = tempfile.mkdtemp(prefix="refactor.")
    slots = [os.path.join(base, "s%d" % i) for i in range(j)]
    for s in slots:
        os.makedirs(s)

    def work(i):
        for k in ks[i::j]:
            n, o = run(k, slots[i])
            print("%-34s %s" % (n, o), flush=True)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(work, range(j)))
    shutil.rmtree(base)


main()
