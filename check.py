#!/usr/bin/env python3
"""Driver of one property check.

  check.py ID [quick|thorough]   decide property ID on /repo's current tree
  check.py --setup               build the extractor and the harness
  check.py --replay FILE         re-run the recorded case / obligation of a violation

Deciding step: the Verus obligations generated from the current text of the functions in /repo
(specs/*.rs, extracted by vx). The harness evaluates the same contracts at run time on bounded
domains: it replays violations on the real code and stands in, labelled bounded, for code out of the
verifier's reach.
"""
import json, os, re, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TGT = os.path.join(ROOT, "target")
WORK = os.path.join(TGT, "work")
EV = os.path.join(ROOT, "evidence")
RP = os.path.join(ROOT, "replays")


def base_env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def cargo(manifest, target, log):
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest], env=e, cwd=ROOT,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    open(log, "w").write(p.stdout)
    return p.returncode == 0, p.stdout


def build_vx():
    return cargo(os.path.join(ROOT, "vx/Cargo.toml"), os.path.join(TGT, "vx"), os.path.join(WORK, "vx.log"))


def build_harness():
    return cargo(os.path.join(ROOT, "harness/Cargo.toml"), os.path.join(TGT, "h"), os.path.join(WORK, "harness.log"))


VXBIN = os.path.join(TGT, "vx/debug/vx")
HBIN = os.path.join(TGT, "h/debug/harness")


def load_config():
    return json.load(open(os.path.join(ROOT, "specs/specs.json")))


# --------------------------------------------------------------------------- verifier
def run_verus(path, rlimit=None, timeout=600):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--num-threads", "4", "--multiple-errors", "4"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=base_env(), cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return dict(status="timeout", cmd=cmd, wall=time.time() - t, stderr="timeout", verified=0, errors=0, fns=[], smt_ms=0)
    r = dict(cmd=cmd, wall=time.time() - t, stderr=err, rc=rc, verified=0, errors=0, fns=[], smt_ms=0)
    try:
        d = json.loads(out[out.index("{"):])
    except Exception:
        r["status"] = "noparse"
        return r
    vr = d.get("verification-results", {})
    r["verified"] = vr.get("verified", 0)
    r["errors"] = vr.get("errors", 0)
    for mod in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in mod.get("function-breakdown", []):
            r["fns"].append(dict(name=f["function"], mode=f.get("mode"), us=f.get("time-micros", 0), ok=f.get("success")))
    r["smt_ms"] = d.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    if vr.get("success") and r["errors"] == 0 and rc == 0:
        r["status"] = "ok"
    elif vr.get("encountered-vir-error") or "verified" not in vr:
        r["status"] = "frontend"
    elif r["errors"] > 0:
        r["status"] = "failed"
    else:
        r["status"] = "frontend"
    return r


ERR = re.compile(r"^error(?:\[[^\]]*\])?: (.*)$")
LOC = re.compile(r"^\s*--> .*?:(\d+):(\d+)")


def parse_errors(stderr, src_lines, fmap):
    """[(kind, function, message, clause text)]"""
    res = []
    cur = None
    for l in stderr.splitlines():
        m = ERR.match(l)
        if m:
            cur = dict(msg=m.group(1), line=None, snippet=[])
            if not m.group(1).startswith("aborting due"):
                res.append(cur)
            continue
        if l.startswith(("note:", "warning:")):
            cur = None
        if cur is None:
            continue
        m = LOC.match(l)
        if m and cur["line"] is None:
            cur["line"] = int(m.group(1))
        cur["snippet"].append(l)
    out = []
    for c in res:
        fn = "?"
        if c["line"]:
            for f in fmap:
                if f["start"] <= c["line"] <= f["end"]:
                    fn = f["file"] + " :: " + f["target"]
            if fn == "?":
                for k in range(c["line"] - 1, -1, -1):
                    m = re.search(r"\bproof fn (\w+)", src_lines[k])
                    if m:
                        fn = "lemma " + m.group(1)
                        break
        txt = src_lines[c["line"] - 1].strip() if c["line"] and c["line"] <= len(src_lines) else ""
        out.append(dict(function=fn, message=c["msg"], clause=txt, detail="\n".join(c["snippet"][:20])))
    return out


RESOURCE = ("Resource limit", "rlimit", "timed out")
# messages of the verifier that state a refuted (not a malformed) obligation
REFUTED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
           "possible arithmetic", "possible division by zero", "decreases not satisfied", "loop must have a decreases",
           "unable to prove", "possible bit shift", "split assertion failure", "split precondition", "split postcondition",
           "assert_by_contradiction", "loop invariant", "unreachable", "cannot show", "recommendation not met")


def verify_spec(spec, cfg, tier):
    """extract one contract file from the current tree and verify it"""
    name = os.path.splitext(spec)[0]
    out = os.path.join(WORK, name + ".rs")
    mp = os.path.join(WORK, name + ".map")
    for f in (out, mp):
        if os.path.exists(f):
            os.remove(f)
    r = dict(spec=spec)
    p = subprocess.run([VXBIN, REPO, os.path.join(ROOT, "specs", spec), out, mp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", env=base_env())
    if p.returncode != 0:
        r.update(status="undecided", reason="extraction: " + p.stdout.strip()[-600:], functions=[], verified=0, errors=0)
        return r
    fmap = json.load(open(mp))
    text = open(out).read()
    lines = text.splitlines()
    v = run_verus(out, cfg.get("rlimit", 60))
    r.update(functions=[f["file"] + " :: " + f["target"] for f in fmap if not f.get("assumed")],
             relied=[f["file"] + " :: " + f["target"] for f in fmap if f.get("assumed")], cmd=" ".join(v["cmd"]), verified=v["verified"],
             errors=v["errors"], smt_ms=v["smt_ms"], wall=round(v["wall"], 2), fns=v["fns"], stderr=v["stderr"][-20000:])
    # trusted items, read from the text that was verified
    r["trusted"] = sorted(set(re.findall(r"assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", text)))
    # bodies dropped because the contract is discharged in another contract file carry the mark vx_assumed
    own = re.sub(r"#\[verifier::external_body\](?=(?:(?!#\[verifier)[\s\S])*?// vx_assumed)", "", text)
    r["trusted"] += ["external_body " + x for x in re.findall(r"#\[verifier::external_body\]\s*(?:pub )?(?:const )?(?:fn|struct) (\w+)", own)]
    r["trusted"] += ["uninterpreted " + x for x in re.findall(r"uninterp spec fn (\w+)", text)]
    body = re.sub(r"//.*", "", text)
    r["assumes"] = len(re.findall(r"\b(?:assume|admit)\s*\(", body))
    r["axioms"] = re.findall(r"\baxiom fn (\w+)", body)
    if v["status"] == "ok":
        if v["verified"] == 0 or not fmap:
            r.update(status="undecided", reason="no obligations were generated")
        else:
            r["status"] = "proved"
        return r
    errs = parse_errors(v["stderr"], lines, fmap)
    if v["status"] == "failed":
        real = [e for e in errs if any(k in e["message"] for k in REFUTED)]
        if real:
            r.update(status="refuted", failures=real)
            return r
        r.update(status="undecided", reason="verifier gave no verdict: " + "; ".join(e["message"] for e in errs)[:600])
        return r
    r.update(status="undecided", reason="%s: %s" % (v["status"], "; ".join(
        "%s @ %s `%s`" % (e["message"], e["function"], e["clause"]) for e in errs)[:900] or v["stderr"][-400:]))
    return r


def probe_spec(spec, cfg):
    """vacuity guard: with `assert(false)` first in every body, every function under contract must fail"""
    name = os.path.splitext(spec)[0] + "_probe"
    out = os.path.join(WORK, name + ".rs")
    mp = os.path.join(WORK, name + ".map")
    e = base_env()
    e["VX_PROBE"] = "1"
    p = subprocess.run([VXBIN, REPO, os.path.join(ROOT, "specs", spec), out, mp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=e)
    if p.returncode != 0:
        return None
    fmap = [f for f in json.load(open(mp)) if not f.get("assumed")]
    lines = open(out).read().splitlines()
    v = run_verus(out, cfg.get("rlimit", 60))
    hit = set()
    for l in v["stderr"].splitlines():
        m = LOC.match(l)
        if m and int(m.group(1)) <= len(lines) and "vx_probe_false" in lines[int(m.group(1)) - 1]:
            for f in fmap:
                if f["start"] <= int(m.group(1)) <= f["end"]:
                    hit.add((f["start"], f["target"]))
    alive = len(hit)
    dead = [f["target"] for f in fmap if (f["start"], f["target"]) not in hit]
    return dict(functions=len(fmap), reachable=alive, vacuous=dead)


# --------------------------------------------------------------------------- harness
def run_harness(pid, tier, seed, extra=(), timeout=480):
    kf = os.path.join(WORK, "known-%s.txt" % pid)
    open(kf, "w").write("\n".join(k["case"] for k in known_findings(pid)) + "\n")
    cmd = [HBIN, pid, "--seed", str(seed), "--known", kf] + (["--thorough"] if tier == "thorough" else []) + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, env=base_env(), cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", "", (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
    return rc, out, err, round(time.time() - t, 2), cmd


def known_findings(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\w+) case=`([^`]*)` (.*)", l)
            if m and m.group(1) == pid:
                res.append(dict(case=m.group(2), what=m.group(3)))
    return res


def harness(pid, tier, seed):
    budget = 420 if tier == "quick" else 700
    rc, out, err, wall, cmd = run_harness(pid, tier, seed, timeout=budget)
    if rc == 0:
        try:
            d = json.loads(out.strip().splitlines()[-1])
            d["wall"] = wall
            d["cmd"] = " ".join(cmd)
            return d
        except Exception:
            rc = "noparse"
    # the process died or hung inside a case: find it
    rc2, out2, err2, w2, _ = run_harness(pid, tier, seed, extra=["--trace"], timeout=120 if rc == "timeout" else budget)
    last = [l for l in err2.splitlines() if l.startswith("CASE ")]
    case = last[-1][5:] if last else "?"
    sec, _, d = case.partition(": ")
    return dict(id=pid, total=len(last), failed=1, cases={}, samples={}, known=[], wall=wall, cmd=" ".join(cmd),
                crash=True, timeout=(rc == "timeout"),
                fails=[dict(section=sec, case=d, message="the process ended with %s inside this case" % rc)])


# --------------------------------------------------------------------------- decision
def replay_file(pid, n, obj):
    os.makedirs(RP, exist_ok=True)
    p = os.path.join(RP, "%s-%d.json" % (pid, n))
    json.dump(obj, open(p, "w"), indent=1)
    return p


def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    if sys.argv[1] == "--setup":
        res = {}
        ts = [threading.Thread(target=lambda: res.__setitem__("vx", build_vx())),
              threading.Thread(target=lambda: res.__setitem__("h", build_harness()))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        ok = all(v[0] for v in res.values())
        print("setup:", {k: v[0] for k, v in res.items()})
        if not ok:
            for v in res.values():
                print(v[1][-2000:])
        sys.exit(0 if ok else 1)
    if sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg_all = load_config()
    cfg = cfg_all[pid]
    hres = {}

    def hthread():
        ok, log = build_harness()
        if ok:
            hres["r"] = harness(pid, tier, seed)
        else:
            hres["err"] = log[-3000:]

    th = threading.Thread(target=hthread)
    th.start()
    okv, log = build_vx()
    if not okv:
        th.join()
        print(log[-3000:])
        print("the extractor does not build")
        sys.exit(3)
    specs = []
    lock = threading.Lock()
    todo = list(cfg["specs"])

    def worker():
        while True:
            with lock:
                if not todo:
                    return
                s = todo.pop(0)
            r = verify_spec(s, cfg, tier)
            if r["status"] == "proved" and tier == "thorough":
                r["probe"] = probe_spec(s, cfg)
            with lock:
                specs.append(r)

    ws = [threading.Thread(target=worker) for _ in range(3)]
    [w.start() for w in ws]
    [w.join() for w in ws]
    th.join()
    specs.sort(key=lambda r: r["spec"])

    nviol = 0
    lines = []
    undecided = [r for r in specs if r["status"] == "undecided"]
    refuted = [r for r in specs if r["status"] == "refuted"]
    h = hres.get("r")
    failing = h["fails"] if h else []
    for r in specs:
        print("%-10s %-22s %d obligations groups, %d failed, %s functions" % (
            r["status"], r["spec"], r.get("verified", 0) + r.get("errors", 0), r.get("errors", 0), len(r["functions"])))
        if r["status"] == "undecided":
            print("  UNDECIDED (bounded stand-in decides): " + r["reason"])
        for e in r.get("failures", []):
            print("  FAILED OBLIGATION %s: %s: %s" % (e["function"], e["message"], e["clause"]))
    if h:
        print("harness: %d cases, %d failures, %.1f s" % (h["total"], h["failed"], h["wall"]))
    else:
        print("harness: did not build (bounded part not run)\n" + hres.get("err", "")[-1500:])
    for k in (h or {}).get("known", []):
        what = [x["what"] for x in known_findings(pid) if x["case"] == k["id"]]
        print("KNOWN-FINDING: property=%s %s (%s, %d cases, e.g. %s)" % (pid, what[0] if what else "", k["id"], k["n"], k["example"]))
    obl = [dict(spec=r["spec"], **e) for r in refuted for e in r["failures"]]
    if failing:
        for n, f in enumerate(failing[:5]):
            p = replay_file(pid, n, dict(property=pid, kind="input", tier=tier, seed=seed, section=f["section"], case=f["case"],
                                         message=f["message"], failed_obligations=obl, replay="python3 check.py --replay <this file>"))
            print("  failing input: %s: %s -> %s" % (f["section"], f["case"], f["message"]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p))
            nviol += 1
    elif obl:
        p = replay_file(pid, 0, dict(property=pid, kind="obligation", tier=tier, seed=seed, failed_obligations=obl,
                                     verifier_output={r["spec"]: r.get("stderr", "") for r in refuted}))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        nviol += 1
    # vacuity
    for r in specs:
        pr = r.get("probe")
        if pr and pr["vacuous"]:
            print("  vacuous contract (unreachable body): %s" % pr["vacuous"])
    write_evidence(pid, tier, seed, cfg, specs, h, nviol, time.time() - t0)
    for l in lines:
        print(l)
    if not h and not any(r["status"] == "proved" for r in specs) and not nviol:
        print("nothing could be decided")
        sys.exit(3)
    sys.exit(1 if nviol else 0)


def write_evidence(pid, tier, seed, cfg, specs, h, nviol, wall):
    proved = [r for r in specs if r["status"] == "proved"]
    fns = []
    for r in specs:
        for f in r["functions"]:
            if f not in [x["function"] for x in fns]:
                fns.append(dict(function=f, spec=r["spec"], status=r["status"]))
    trusted = sorted({t for r in specs for t in r.get("trusted", [])})
    tb = ["Verus 0.2026.09.13 and its Z3 back end", "vstd specifications of Vec, Option, Result and slices",
          "vx: the mechanical extraction rules listed in DESIGN.md (generic D instantiated at dynamic rank, macros expanded, "
          "iterator chains unrolled to while loops, unsafe pointer reads written as indexed reads)",
          "machine-range preconditions: extents, sizes and positions representable in isize"] + \
         ["trusted contract: " + t for t in trusted]
    if any(r.get("assumes") for r in specs):
        tb.append("assume() statements in the contract files: %d" % sum(r.get("assumes", 0) for r in specs))
    cov = dict(
        obligations=sum(r.get("verified", 0) + r.get("errors", 0) for r in specs),
        discharged=sum(r.get("verified", 0) for r in specs),
        checker_cmd="; ".join(r["cmd"] for r in specs if r.get("cmd")) or "none (extraction failed)",
        trusted_base=tb,
        functions_under_contract=fns,
        functions_proved=len([f for f in fns if f["status"] == "proved"]),
        contract_files=[dict(file=r["spec"], status=r["status"], obligation_groups=r.get("verified", 0) + r.get("errors", 0),
                             failed=r.get("errors", 0), smt_ms=r.get("smt_ms", 0), wall_s=r.get("wall", 0), reason=r.get("reason"),
                             probe=r.get("probe")) for r in specs],
        back_end="z3 (bundled with Verus)",
        solver_ms=sum(r.get("smt_ms", 0) for r in specs),
        undecided=[dict(spec=r["spec"], reason=r["reason"]) for r in specs if r["status"] == "undecided"],
        failed_obligations=[dict(spec=r["spec"], function=e["function"], message=e["message"], clause=e["clause"])
                            for r in specs for e in r.get("failures", [])],
        bounded_standins=dict(
            label="bounded: run-time evaluation of the contracts on the real code over stated finite domains; never counted as proved",
            scope=cfg.get("bounded", ""),
            evaluations=(h or {}).get("total", 0),
            sections=(h or {}).get("cases", {}),
            samples=list((h or {}).get("samples", {}).items())[:12],
            command=(h or {}).get("cmd", "not built"),
            wall_s=(h or {}).get("wall", 0),
        ),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "proof"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)


def do_replay(path):
    o = json.load(open(path))
    if o["kind"] == "input":
        ok, log = build_harness()
        if not ok:
            print(log[-2000:])
            sys.exit(3)
        rc, out, err, wall, cmd = run_harness(o["property"], o["tier"], o["seed"], extra=["--only", o["section"] + ": " + o["case"]])
        print(" ".join(cmd))
        print(out[-3000:] or ("ended with %s" % rc))
        sys.exit(0 if rc == 0 and json.loads(out.strip().splitlines()[-1])["failed"] == 0 else 1)
    build_vx()
    cfg = load_config()[o["property"]]
    bad = 0
    for s in sorted({e["spec"] for e in o["failed_obligations"]}):
        r = verify_spec(s, cfg, o["tier"])
        print(s, r["status"], r.get("reason", ""))
        for e in r.get("failures", []):
            bad = 1
            print("  %s: %s: %s\n%s" % (e["function"], e["message"], e["clause"], e["detail"]))
    sys.exit(bad)


main()
