#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property against /repo's working tree
   check.py --build                        build the extractor and the harness
   check.py --unit UNIT [--keep FILE]      extract and verify one unit, print the verdict (development aid)"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VP_REPO", "/repo"); B = os.path.join(V, ".build")
sys.path.insert(0, V)
from contracts import UNITS, PROPS
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

def cargo(d, target, extra={}):
    shutil.copy("/opt/veriftools/crates.Cargo.lock", os.path.join(d, "Cargo.lock")) if not os.path.exists(os.path.join(d, "Cargo.lock")) else None
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", target], cwd=d, env=dict(ENV, **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout
def build_extract(): return cargo(os.path.join(V, "tools/extract"), os.path.join(B, "x"))
def build_harness():
    d = os.path.join(V, "harness")
    if REPO != "/repo":
        d = os.path.join(B, "harness-src"); shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(V, "harness"), d)
        p = os.path.join(d, "Cargo.toml"); s = open(p).read().replace("/repo", REPO); open(p, "w").write(s)
    return cargo(d, os.path.join(B, "h" if REPO == "/repo" else "h2"), {"RUSTFLAGS": "--cap-lints allow"})

def expand():
    """Expansions of map_ref! / map_mut! (crate mapexp) and of /repo itself, by rustc -Zunpretty=expanded."""
    d = os.path.join(B, "mapexp-src"); out = os.path.join(B, "exp"); t = os.path.join(B, "m"); os.makedirs(out, exist_ok=True)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(V, "mapexp"), d)
    p = os.path.join(d, "Cargo.toml"); s = open(p).read().replace("/repo", REPO); open(p, "w").write(s)
    shutil.copy("/opt/veriftools/crates.Cargo.lock", os.path.join(d, "Cargo.lock"))
    fp = os.path.join(t, "debug/.fingerprint")
    for x in os.listdir(fp) if os.path.isdir(fp) else []:
        if x.startswith(("futures-signals-", "mapexp-")): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    for f in ("map.rs", "repo.rs"):
        if os.path.exists(os.path.join(out, f)): os.unlink(os.path.join(out, f))
    msg = ""
    for f, a in (("map.rs", []), ("repo.rs", ["-p", "futures-signals"])):
        p = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--profile=check", "--target-dir", t] + a + ["--", "-Zunpretty=expanded"], cwd=d, env=dict(ENV, RUSTC_BOOTSTRAP="1", RUSTFLAGS="--cap-lints allow"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0 and p.stdout.strip(): open(os.path.join(out, f), "w").write(p.stdout)
        else: msg += p.stderr[-600:]
    return msg

KINDS = re.compile(r'^\s*\("(precondition not satisfied|postcondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|loop invariant|recommendation not met|requires not satisfied|unreachable|[a-z][a-z ]*not satisfied|[a-z ]*underflow/overflow|[a-z ]*bounds?)')
def obligations(logdir):
    n, per, cur = 0, {}, "?"
    for f in os.listdir(logdir):
        if not f.endswith(".air"): continue
        for l in open(os.path.join(logdir, f), errors="replace"):
            if l.startswith(";; Function-Def "): cur = l[16:].strip()
            elif KINDS.match(l): n += 1; per[cur] = per.get(cur, 0) + 1
    return n, per

def verus(rs, extra=(), log=None, timeout=600):
    cmd = ["verus", rs, "--triggers-mode", "silent", "--output-json", "--time", "--error-format=json", "--multiple-errors", "4"] + list(extra)
    if log: cmd += ["--log", "air", "--log-dir", log]
    t = time.time()
    try: p = subprocess.run(cmd, cwd=os.path.dirname(rs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired: return dict(state="timeout", wall=time.time() - t, verified=0, errors=0, diags=[], smt=0, rendered="time-out")
    try: j = json.loads(p.stdout)
    except Exception: j = {}
    r = j.get("verification-results", {})
    diags, rendered = [], ""
    for l in p.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") == "error" and d.get("spans"): diags.append(d); rendered += d.get("rendered", "")
        elif d.get("level") == "error": rendered += d.get("rendered", "")
    if not r or r.get("encountered-vir-error") or (not r.get("success") and not r.get("errors")) or any(d.get("code") for d in diags): state = "reject"
    elif r.get("success"): state = "ok"
    else: state = "fail"
    smt = j.get("times-ms", {}).get("smt", {}); smt = smt.get("total", 0) if isinstance(smt, dict) else smt
    return dict(state=state, wall=time.time() - t, verified=r.get("verified", 0), errors=r.get("errors", 0), diags=diags, smt=smt, rendered=rendered or p.stderr[-3000:])

def where(rs, diags):
    """Names of the failed obligations."""
    lines = open(rs).read().split("\n"); sect, cur = [], "(prelude or lemma)"
    for l in lines:
        if l.startswith("// @@FN "): cur = l[8:]
        elif l.startswith("// @@END"): sect.append(cur); cur = "(lemma or contract)"; continue
        sect.append(cur)
    out = []
    for d in diags:
        infn = None; txt = ""
        for s in d["spans"]:
            n = s["line_start"] - 1
            if n < len(sect) and not sect[n].startswith("("): infn = sect[n]
        prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
        t = " ".join(x["text"].strip() for x in prim[0].get("text", [])[:3]); at = [s for s in d["spans"] if not s.get("is_primary") and s.get("text")]
        if at: txt = " at `" + at[0]["text"][0]["text"].strip() + "`"
        out.append("%s: %s: `%s`%s" % (infn or "(lemma)", d["message"], t[:240], txt))
    return out

def run_unit(u, work, vac=True, found=lambda: False):
    """-> dict(unit, state in proved|failed|lost, ...)"""
    rs = os.path.join(work, u + ".rs"); t = time.time()
    p = subprocess.run([os.path.join(B, "x/release/vpextract"), os.path.join(V, "verus/units", u + ".vu"), REPO, os.path.join(V, "verus/prelude"), rs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(ENV, VPX_EXP=os.path.join(B, "exp")))
    r = dict(unit=u, state="lost", why="", fns=[], obligations=0, discharged=0, failed=[], backend="", wall=0, smt_ms=0, output="", per={})
    if p.returncode != 0: r["why"] = (p.stderr.strip().splitlines() or ["extractor failed"])[-1]; return r
    m = [l.split("\t") for l in open(rs + ".map").read().splitlines()]
    r["fns"] = ["%s %s" % (x[1], x[2]) for x in m if x[0] == "fn"]; r["items"] = ["%s %s" % (x[1], x[2]) for x in m if x[0] != "fn"]
    lg = os.path.join(work, "log-" + u)
    opts = UNITS.get(u, {}).get("opts", [])
    v = verus(rs, opts, log=lg, timeout=240); r["backend"] = "Z3"
    if v["state"] in ("fail", "timeout") and not found():   # a failing input on the real code decides; otherwise the solver gets more time first
        v2 = verus(rs, opts + ["--rlimit", "100", "--smt-option", "smt.random_seed=7"], timeout=150)
        if v2["state"] == "ok": v = v2; r["backend"] = "Z3 (raised resource limit)"
        else:
            v3 = verus(rs, ["-V", "cvc5", "--rlimit", "60"], timeout=150)
            if v3["state"] == "ok": v = v3; r["backend"] = "cvc5"
            elif v2["state"] == "fail": v = v2
    r["wall"] = time.time() - t; r["smt_ms"] = v["smt"]; r["output"] = v["rendered"]
    if os.path.isdir(lg): r["obligations"], r["per"] = obligations(lg)
    r["verified_fns"] = v["verified"]
    if v["state"] == "reject": r["state"] = "lost"; r["why"] = "not accepted by the verifier's front end: " + "; ".join(d["message"] for d in v["diags"][:3])[:400]; return r
    if v["state"] != "ok":
        real = [d for d in v["diags"] if not re.search(r"[Rr]esource limit|rlimit|timed? ?out", d["message"])]
        if v["state"] == "timeout" or (v["diags"] and not real): r["why"] = "undecided: the solver ran out of time or resources without refuting an obligation"; r["discharged"] = max(0, r["obligations"] - max(1, len(v["diags"]))); return r
        r["state"] = "failed"; r["failed"] = where(rs, real) or ["%s: verification did not finish" % u]; r["discharged"] = max(0, r["obligations"] - len(r["failed"])); return r
    r["state"] = "proved"; r["discharged"] = r["obligations"]
    if vac:   # every contract must be satisfiable: with `assert(false)` at its start every function has to fail
        out, infn, first, skip, imp, n = [], None, False, False, False, 0   # the body does not matter: it becomes `assert(false)`
        for l in open(rs).read().split("\n"):
            if l.startswith("// @@FN "): infn = l; first = True; imp = False
            elif first: imp = l.startswith("impl"); first = False
            if infn and not skip and l == "{": out += ["{ proof { assert(false); } // @@VAC", "v_unreachable() }"]; skip = True; n += 1
            if l.startswith("// @@END"):
                if skip and imp: out.append("}")
                infn = None; skip = False
            if not skip: out.append(l)
        rv = os.path.join(work, u + "_vac.rs"); open(rv, "w").write("\n".join(out)); vv = verus(rv, opts)
        lines = open(rv).read().split("\n"); hit = set()
        for d in vv["diags"]:
            for s in d["spans"]:
                if s["line_start"] <= len(lines) and "@@VAC" in lines[s["line_start"] - 1]: hit.add(s["line_start"])
        r["vacuity"] = "%d of %d contracts shown satisfiable" % (len(hit), n)
        if len(hit) < n: r["state"] = "vacuous"; r["why"] = "only " + r["vacuity"]
    return r

def search(prop, secs, seed, replay, cases=None):
    exe = os.path.join(B, ("h" if REPO == "/repo" else "h2"), "release/vpharness")
    try: p = subprocess.run([exe, "search", prop, str(seed), str(secs), replay] + (cases or []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 3 + 120)
    except subprocess.TimeoutExpired: return dict(found=None, scripts=0, cases=[], crashed=True, out="time-out")
    o = p.stdout; f = [l for l in o.splitlines() if l.startswith("FOUND ")]
    return dict(found=f[0][6:] if f else None, scripts=sum(int(l.split()[2]) for l in o.splitlines() if l.startswith("clean ")), distinct=sum(int(l.split()[4]) for l in o.splitlines() if l.startswith("clean ") and len(l.split()) > 4), cases=[l.split()[1] for l in o.splitlines() if l.startswith("clean ")], crashed=p.returncode not in (0, 1), out=o[-2000:] + p.stderr[-2000:], code=p.returncode)

def main():
    if sys.argv[1] == "--build":
        ok = True
        for f in (build_extract, build_harness):
            a, o = f(); ok = ok and a
            if not a: print(o)
        sys.exit(0 if ok else 2)
    os.makedirs(B, exist_ok=True)
    if sys.argv[1] == "--unit":
        a, o = build_extract()
        if not a: print(o); sys.exit(2)
        w = tempfile.mkdtemp(dir=B)
        if any(UNITS.get(u, {}).get("exp") for u in sys.argv[2:]): print(expand())
        for u in sys.argv[2:]:
            r = run_unit(u, w); print(json.dumps({k: v for k, v in r.items() if k not in ("output", "per")}, indent=1)); print(r["output"][:6000])
        shutil.rmtree(w); return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); P = PROPS[prop]; units = P["units"]
    base = 6 if tier == "quick" else 120; more = 45 if tier == "quick" else 240
    os.makedirs(os.path.join(V, "replays"), exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    replay = os.path.join(V, "replays", "%s.txt" % prop)
    if os.path.exists(replay): os.unlink(replay)
    res, hs, err = {}, {}, []
    work = tempfile.mkdtemp(dir=B, prefix="w-" + prop)
    def proofs():
        if not units: return
        ok, o = build_extract()
        if not ok: err.append("extractor does not build:\n" + o); return
        if any(UNITS[u].get("exp") for u in units): expand()
        sem = threading.Semaphore(4)
        def one(u):
            with sem:
                try: res[u] = run_unit(u, work, vac=not P.get("only"), found=found)
                except Exception as e: err.append("%s: %r" % (u, e))
        ts = [threading.Thread(target=one, args=(u,)) for u in units]; [t.start() for t in ts]; [t.join() for t in ts]
    def harness():
        ok, o = build_harness()
        if not ok: err.append("harness does not build against /repo:\n" + o[-4000:]); return
        hs["r"] = search(prop, base, seed, replay)
    hdone = threading.Event()
    def found(): hdone.wait(); return bool(hs.get("r", {}).get("found"))
    def hrun():
        try: harness()
        finally: hdone.set()
    ts = [threading.Thread(target=proofs), threading.Thread(target=hrun)]; [t.start() for t in ts]; [t.join() for t in ts]
    if err: print("\n".join(err)); shutil.rmtree(work); sys.exit(2)
    if P.get("only"):   # only these obligations belong to the property; a unit failing others does not decide it
        for u in units:
            r = res[u]; mine = [x for x in r["failed"] if re.search(P["only"], x)]
            if r["state"] == "failed" and not mine: r["state"] = "lost"; r["why"] = "undecided: fails obligations of other properties (%s)" % r["failed"][0][:160]
            r["failed"] = mine
    bad = [u for u in units if res[u]["state"] == "failed"]; lost = [u for u in units if res[u]["state"] == "lost"]
    vac = [u for u in units if res[u]["state"] == "vacuous"]
    if vac: print("contracts not satisfiable:", [(u, res[u]["why"]) for u in vac]); shutil.rmtree(work); sys.exit(2)
    h = hs["r"]
    if h["crashed"] and not h["found"]: h = search(prop, base, seed, replay)
    if (bad or lost) and not h["found"] and not h["crashed"]:
        h2 = search(prop, more, seed + 7, replay); h2["scripts"] += h["scripts"]; h = h2
    viol = 0
    for u in units:
        r = res[u]
        print("unit %-14s %-7s %d functions, %d obligations, %d discharged (%s, %.1f s) %s" % (u, r["state"], len(r["fns"]), r["obligations"], r["discharged"], r["backend"], r["wall"], r["why"]))
        for x in r["failed"]: print("  FAILED OBLIGATION %s" % x)
    print("search on the real code: %d scripts, %s" % (h["scripts"], h["found"] or "nothing found"))
    line = None
    if h["found"] or h["crashed"]:
        viol = 1
        if h["crashed"] and not h["found"]: open(replay, "w").write("# the search crashed (exit %s) with: vpharness search %s %s %s\n%s\n" % (h.get("code"), prop, seed, base, h["out"]))
        with open(replay, "a") as f:
            for u in bad: f.write("\nfailed obligations of unit %s:\n" % u + "\n".join(res[u]["failed"]) + "\n")
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif bad:
        viol = 1
        with open(replay, "w") as f:
            for u in bad: f.write("failed obligations of unit %s (reproduce: python3 /verif/check.py --unit %s)\n" % (u, u) + "\n".join(res[u]["failed"]) + "\n\nverifier output:\n" + res[u]["output"] + "\n")
            f.write("\nno failing input found by %d scripts on the real code\n" % h["scripts"])
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    ob = sum(res[u]["obligations"] for u in units); di = sum(res[u]["discharged"] for u in units)
    proved = units and not bad and not lost
    level = P["level"] if (proved or not units or bad) else "exploration"
    if level == "proof" and not ob: level = "exploration"
    samples = [dict(kind="function under contract", unit=u, function=f, obligations=sum(v for k, v in res[u]["per"].items() if k.split("::", 1)[-1] == re.sub(r"^.* for ", "", f.split(" ", 1)[1]).replace("/", "::"))) for u in units for f in res[u]["fns"]]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=dict(
        obligations=ob, discharged=di, checker_cmd="verus <unit>.rs (Verus 0.2026.09.13, %s), unit extracted by /verif/tools/extract from %s" % (", ".join(sorted(set(res[u]["backend"] for u in units if res[u]["backend"]))) or "-", REPO),
        trusted_base=["Verus and vstd", "Z3 / cvc5", "rustc", "the extraction rules (DESIGN.md)", "prelude contracts in /verif/verus/prelude"] + sum((UNITS[u].get("trusted", []) for u in units), []),
        functions_under_contract=sum((res[u]["fns"] for u in units), []), units=[dict(unit=u, state=res[u]["state"], why=res[u]["why"], obligations=res[u]["obligations"], discharged=res[u]["discharged"], backend=res[u]["backend"], solver_ms=res[u]["smt_ms"], wall_s=round(res[u]["wall"], 1), vacuity=res[u].get("vacuity", "")) for u in units],
        bounded_stand_ins=P.get("bounded", []) + ["unit %s (this tree: %s)" % (u, res[u]["why"]) for u in lost],
        evaluations=h["scripts"], distinct_nontrivial=h.get("distinct", 0), rule="distinct_nontrivial = distinct whole traces (inputs and outputs) among the first 3000 scripts of every case, counting only scripts with at least one event besides Pending polls; random scripts (seeded) of valid source changes, ends and polls against the real crate, 2 to 25 steps each; every script has at least one poll; this search only supplies failing inputs and the bounded stand-ins, it is not counted as proof", search_cases=h["cases"], samples=samples or [dict(kind="search case", name=c) for c in h["cases"]],
        explanation=P["note"]), assumptions=P.get("assumptions", []) + sum((UNITS[u].get("assumptions", []) for u in units), []), wall_s=round(time.time() - t0, 1), violations=viol)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("known: property=%s " % prop): print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2].strip()))
    if line: print(line); sys.exit(1)
    print("%s: %s" % (prop, "proved" if proved else "held on everything explored" + (" (contract anchor lost: bounded search only)" if lost else "")))
main()
