#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property for the code in /repo.

1. extract /repo/src into one Verus crate with the contracts of /verif/contracts inserted,
2. let Verus discharge every obligation of the functions this property depends on,
3. at the same time search for failing inputs on the real crate (replay of refused obligations,
   and the bounded stand-in where a function is out of the verifier's reach),
4. verdict, evidence file.
"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CONTRACTS = os.path.join(HERE, "contracts")
FIXED_INFRA = []


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def cargo(manifest, target, extra=()):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", manifest] + list(extra)
    return run(cmd, env=env)


# ------------------------------------------------------------------ proof

def parse_verus(text, lines):
    """error messages with the extracted function each of them lies in"""
    where = []  # line -> function
    cur = None
    for ln in lines:
        m = re.search(r"/\*VXFN (.*?)\*/", ln)
        if m:
            cur = m.group(1).strip()
        where.append(cur)
        if "/*VXEND*/" in ln:
            cur = None
    out = []
    blocks = re.split(r"\n(?=error|warning|note)", "\n" + text)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n", 1)[0]
        if head.startswith("error: aborting"):
            continue
        nums = [int(x) for x in re.findall(r"-->\s*[^\s:]+\.rs:(\d+):", b)] + [int(x) for x in re.findall(r"^\s*(\d+) [|/]", b, re.M)]
        fns = []
        for n in nums:
            if 0 < n <= len(where) and where[n - 1] and where[n - 1] not in fns:
                fns.append(where[n - 1])
        first = nums[0] if nums else 0
        tags = sorted({g for n in nums if 0 < n <= len(lines) for g in re.findall(r"/\*(C\d\d|FN)\*/", lines[n - 1])})
        out.append({"head": head, "fns": fns, "line": first, "text": b[:3000], "tags": tags,
                    "src": lines[first - 1].strip() if 0 < first <= len(lines) else ""})
    return out


REFUSED = re.compile(r"postcondition not satisfied|precondition not satisfied|precondition not met|assertion failed|invariant not satisfied|possible arithmetic|overflow|underflow|"
                     r"decreases not satisfied|recommendation not met|index|split|loop must have|could not prove termination|postcondition|invariant|possible division by zero|bit shift|assert")
RLIMIT = re.compile(r"Resource limit|rlimit|solver (?:returned|crash)|timeout", re.I)


# obligations that are about panics, bounds, arithmetic and termination
SAFETY = re.compile(r"precondition not|arithmetic|overflow|underflow|decreases not satisfied|termination|division by zero|bit shift|index")


class Proof:
    def __init__(self, pid, cfg, work, tier):
        self.pid, self.cfg, self.work, self.tier = pid, cfg, work, tier
        self.state = "none"        # none | proved | refused | undecided
        self.notes, self.errors = [], []
        self.obligations = self.discharged = 0
        self.solver_ms = 0
        self.functions, self.fn_times = [], {}
        self.report = {}
        self.wall = 0.0
        self.cmd = ""
        self.standin = []

    def run(self, extractor):
        t0 = time.time()
        try:
            self._run(extractor)
        except Exception as e:  # the machinery, not the code
            self.state = "undecided"
            self.notes.append("verifier run failed: %r" % (e,))
        self.wall = time.time() - t0

    def extract(self, extractor, standin):
        out = os.path.join(self.work, "vx.rs")
        rep = os.path.join(self.work, "report.json")
        base = os.path.join(self.work, "baseline.json")
        env = dict(os.environ, VX_STANDIN=",".join(standin))
        p = run([extractor, os.path.join(REPO, "src"), CONTRACTS, out, rep, base], env=env)
        if p.returncode != 0:
            return None, "extraction refused: " + (p.stderr.strip() or p.stdout.strip())[-1500:]
        self.report = json.load(open(rep))
        return out, None

    def verus(self, out, mods):
        args = ["verus", "vx.rs", "--crate-type", "lib", "--triggers-mode", "silent", "--multiple-errors", "3", "--output-json", "--time-expanded",
                "--num-threads", str(self.cfg.get("threads", 6)), "--rlimit", str(self.cfg.get("rlimit", 60))]
        for m in mods:
            args += ["--verify-only-module", m]
        self.cmd = " ".join(args)
        try:
            p = run(args, cwd=self.work, timeout=self.cfg.get("timeout", 600))
        except subprocess.TimeoutExpired:
            return None, None
        return p.stdout, p.stderr

    def _run(self, extractor):
        mods = self.cfg.get("modules", [])
        if not mods:
            return
        standin = []
        for attempt in range(4):
            out, err = self.extract(extractor, standin)
            if err:
                self.state = "undecided"
                self.notes.append(err)
                return
            fns = self.report["functions"]
            lost = [f for f, v in fns.items() if v.get("lost") and f not in standin]
            if lost and attempt < 3:
                standin += lost
                self.notes += ["%s: places that carry proof text are gone (%s)" % (f, "; ".join(fns[f]["lost"])[:200]) for f in lost]
                continue
            so, se = self.verus(out, mods)
            if so is None:
                self.state = "undecided"
                self.notes.append("verifier ran out of time")
                return
            lines = open(out).read().split("\n")
            errs = parse_verus(se, lines)
            try:
                js = json.loads(so)
            except Exception:
                js = {}
            vr = js.get("verification-results", {})
            if vr.get("encountered-vir-error") or "verified" not in vr:
                # not even a verification problem: find the function that the verifier cannot take
                bad = sorted({e["fns"][0] for e in errs if e["fns"]} - set(standin))
                self.notes += ["outside the verifier's reach: %s (%s)" % (e["fns"][0] if e["fns"] else "?", e["head"][:160]) for e in errs[:4]]
                if bad and attempt < 3:
                    standin += bad
                    continue
                self.state = "undecided"
                return
            break
        self.standin = standin
        self.discharged = vr["verified"]
        self.obligations = vr["verified"] + vr["errors"]
        for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.solver_ms += f.get("time-micros", 0) / 1000.0
                self.fn_times[f.get("function", "?")] = round(f.get("time-micros", 0) / 1000.0, 1)
        self.functions = sorted(f for f, v in self.report["functions"].items() if v.get("contract") and any(f.startswith(m.replace("crate::", "") + "::") for m in mods))
        if self.obligations == 0:
            self.state = "undecided"
            self.notes.append("no obligation was generated")
            return
        need = self.cfg.get("functions", [])
        missing = [f for f in need if f not in self.report["functions"]]
        if missing:
            self.notes.append("not in the source any more: " + ", ".join(missing))
        refused, limit = [], []
        for e in errs:
            if not e["fns"]:
                # theory text: contracts, not code
                e["fns"] = ["(theory)"]
            (limit if RLIMIT.search(e["head"]) else refused).append(e)
        # what a refusal means: proof text (loop invariants, assertions) is written for the code as it was; when a
        # function was given other loops, other locals or helpers that have no contract, a refusal says that the
        # proof text no longer fits, not that the property fails
        newfns = [f for f, v in fns.items() if v.get("new")]
        def shaped(e):
            if newfns:
                return "new functions without contract: " + ", ".join(newfns)
            for f in e["fns"]:
                ch = [c for c in fns.get(f, {}).get("changed", []) if c != "locals renamed"]
                if ch:
                    return "%s was rewritten (%s)" % (f, "; ".join(ch))
            if not any(f in fns for f in e["fns"]):
                ch = [f for f, v in fns.items() if [c for c in v.get("changed", []) if c != "locals renamed"]]
                if ch:
                    return "functions rewritten: " + ", ".join(ch)
            return None
        mode = self.cfg.get("alarm", ["all"])
        hard = []
        for e in refused:
            why = shaped(e)
            if why is None and need and not any(f in need for f in e["fns"]) and any(f in fns for f in e["fns"]):
                why = "not a function this property depends on"
            # clauses marked FN pin the choice among the right answers (which match is taken): they carry the proof that
            # the output is a function of the input, and fail too when another right answer is chosen (C15 is about that choice)
            if why is None and "FN" in e["tags"] and self.pid not in e["tags"] and not self.cfg.get("pins"):
                why = "pins one of several right answers"
            if why is None and "all" not in mode:
                if not ("safety" in mode and SAFETY.search(e["head"]) or "tag" in mode and self.pid in e["tags"]):
                    why = "not an obligation of this property alone"
            if why is None:
                hard.append(e)
            else:
                limit.append(e)
                self.notes.append("not discharged: %s: %s (%s)" % (e["fns"][0], e["head"].replace("error: ", ""), why))
        # a format changed on both sides may still be read as it was written
        sides = self.cfg.get("sides", [])
        hit = [s for s in sides if any(f in s for e in hard for f in e["fns"])]
        if len(hit) > 1:
            self.notes += ["not discharged: %s: %s (changed on both sides)" % (e["fns"][0], e["head"].replace("error: ", "")) for e in hard]
            limit += hard
            hard = []
        refused = hard
        self.errors = refused
        self.notes += ["solver limit in %s" % e["fns"][0] for e in limit if RLIMIT.search(e["head"])]
        self.notes += ["not proved, only searched: " + f for f in standin]
        if refused:
            self.state = "refused"
        elif limit or missing or standin or vr["errors"]:
            self.state = "undecided"
        else:
            self.state = "proved"


def literals(src):
    """numbers in the source (comments and tests left out), with the powers of two that shifts make of them"""
    out = collections.Counter()
    for f in sorted(glob.glob(os.path.join(src, "**", "*.rs"), recursive=True)):
        t = open(f, errors="replace").read().split("*************** TESTS")[0]
        t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"', " ", t, flags=re.S)
        rel = os.path.relpath(f, src)
        for m in re.finditer(r"(<<\s*)?\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b|b'(\\?.)'", t):
            if m.group(3):
                v = ord(m.group(3)[-1])
            else:
                v = int(m.group(2).replace("_", ""), 0) if not re.match(r"0\d", m.group(2)) else int(m.group(2).replace("_", ""))
            out["%s %d" % (rel, v)] += 1
            if m.group(1) and v < 32:
                out["%s %d" % (rel, 1 << v)] += 1
    return out


def hints():
    """numbers that the source mentions more often than the verified source did"""
    f = os.path.join(CONTRACTS, "literals.json")
    try:
        more = literals(os.path.join(REPO, "src")) - collections.Counter(json.load(open(f)))
    except Exception:
        return []
    return sorted({int(k.split()[-1]) for k in more} - {0, 1, 2} - {v for v in (int(k.split()[-1]) for k in more) if v >= 1 << 40})[:40]


def trusted_base():
    """everything that is assumed, found by scanning the contract files"""
    out = []
    for f in sorted(glob.glob(os.path.join(CONTRACTS, "**", "*"), recursive=True)):
        if not os.path.isfile(f) or not f.endswith((".rs", ".vspec")):
            continue
        t = open(f).read()
        code = re.sub(r"//.*", "", t)
        rel = os.path.relpath(f, HERE)
        ext = re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:proof )?(?:fn|struct) (\w+)|external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:fn|struct) (\w+)", code)
        names = sorted({a or b for a, b in ext})
        if names:
            out.append("%s: assumed contracts (external_body) on %s" % (rel, ", ".join(names)))
        for w in ("assume(", "admit(", "axiom fn"):
            n = code.count(w)
            if n:
                out.append("%s: %d x %s" % (rel, n, w))
    return out


# ------------------------------------------------------------------ main

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = json.load(open(os.path.join(CONTRACTS, "props.json")))
    pc = dict(cfg["defaults"], **cfg["properties"][pid])
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vx-%s-" % pid)
    try:
        code = decide(pid, tier, seed, pc, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, seed, pc, work, t0):
    ext_t, har_t, cli_t = (os.path.join(BUILD, x) for x in ("extract", "harness", "cli"))
    res = {}
    os.chmod(work, 0o711)

    def b(name, *args):
        res[name] = cargo(*args)

    def b_extract():
        b("extract", os.path.join(HERE, "extract", "Cargo.toml"), ext_t)

    proof = Proof(pid, pc, work, tier)

    def do_proof():
        b_extract()
        if res["extract"].returncode == 0:
            proof.run(os.path.join(ext_t, "debug", "vx-extract"))

    th = threading.Thread(target=do_proof)
    if pc.get("modules"):
        th.start()
    b("harness", os.path.join(HERE, "harness", "Cargo.toml"), har_t)
    if pc.get("cli"):
        b("cli", os.path.join(REPO, "Cargo.toml"), cli_t, ["--bins"])
    for k, v in list(res.items()):
        if k != "extract" and v.returncode != 0:
            print(v.stderr[-3000:])
            fail("building %s failed" % k)
    # search for failing inputs on the real crate
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)

    def search(sd, secs):
        sout = os.path.join(work, "search-%d.json" % sd)
        cmd = [os.path.join(har_t, "debug", "vx-harness"), pid, "--seed", str(sd), "--secs", str(secs), "--out", sout, "--replays", replays,
               "--threads", str(pc.get("search_threads", 8)), "--hang", "120"]
        hs = hints()
        if hs:
            cmd += ["--hints", ",".join(map(str, hs))]
        if pc.get("cli"):
            # a copy that another user may run
            tool = os.path.join(work, "retrocompressor")
            shutil.copyfile(os.path.join(cli_t, "debug", "retrocompressor"), tool)
            os.chmod(tool, 0o755)
            cmd += ["--bin", tool]
        try:
            p = run(cmd, timeout=secs + 300, env=dict(os.environ, TMPDIR=work))
        except subprocess.TimeoutExpired:
            fail("the search did not end")
        if p.returncode != 0 or not os.path.exists(sout):
            fail("the search ended with %d: %s" % (p.returncode, p.stderr[-800:]))
        return json.load(open(sout))

    secs = pc["secs"][tier]
    s = search(seed, secs)
    if pc.get("modules"):
        th.join()
        if res["extract"].returncode != 0:
            print(res["extract"].stderr[-2000:])
            fail("building the extractor failed")

    if pc.get("modules") and proof.state != "proved" and not s["violation"]:
        # without a proof the search has to carry the verdict: look longer, elsewhere
        s2 = search(seed + 1000003, pc.get("secs_more", {"quick": 150, "thorough": 600})[tier])
        for k in ("evaluations", "distinct_nontrivial", "secs"):
            s[k] += s2[k]
        for k, v in s2["by_function"].items():
            s["by_function"][k] = s["by_function"].get(k, 0) + v
        s["violation"] = s2["violation"]

    # verdict
    viol = None
    if s["violation"]:
        viol = (s["violation"]["replay"], s["violation"]["what"], "")
    elif proof.state == "refused":
        path = os.path.join(replays, "%s-obligation-%s.json" % (pid, hashlib.sha1(json.dumps([e["text"] for e in proof.errors]).encode()).hexdigest()[:10]))
        changed = {f: v.get("changed") for f, v in proof.report["functions"].items() if v.get("changed")}
        json.dump({"property": pid, "verifier": proof.cmd, "failed_obligations": [
            {"function": e["fns"][-1] if len(e["fns"]) > 1 else e["fns"][0], "obligation": e["head"], "at": e["src"], "verifier_output": e["text"]} for e in proof.errors],
            "changed_functions": changed, "failing_input": None,
            "search": {"cases": s["evaluations"], "seconds": s["secs"]}}, open(path, "w"), indent=1)
        viol = (path, "; ".join(sorted({"%s: %s" % (e["fns"][0], e["head"].replace("error: ", "")) for e in proof.errors}))[:400], " no-failing-input-found")

    # known findings
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    for ln in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"finding: property=(\S+) (.*)", ln.strip())
        if m and m.group(1) == pid:
            known.append(m.group(2))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))

    proved = proof.state == "proved"
    level = pc["level"]
    cov = {
        "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"],
        "rule": "cases made from the seed (data generators, option sets, damaged and hand-made streams, targets with old contents, stream faults as the property needs); non-trivial: more than 2 bytes of data and not seen before",
        "samples": s["samples"][:6],
        "by_function": s["by_function"],
        "obligations": proof.obligations, "discharged": proof.discharged, "checker_cmd": proof.cmd or "none",
        "trusted_base": trusted_base() if pc.get("modules") else [],
        "functions_under_contract": proof.functions,
        "functions_only_searched": sorted(set(pc.get("bounded", [])) | set(proof.standin)),
        "solver": "Z3 (bundled with Verus 0.2026.09.13)", "solver_ms": round(proof.solver_ms, 1),
        "solver_ms_by_function": proof.fn_times,
        "extraction_edits": proof.report.get("edits", []),
        "proof_state": proof.state, "proof_notes": proof.notes, "proof_wall_s": round(proof.wall, 1),
        "explanation": pc.get("explanation", "") + (" This run: every obligation was discharged." if proved else
            " This run: the deciding part is the bounded search (proof state: %s)." % proof.state),
        "numbers_new_in_source": hints(),
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level if (proved or level != "proof" or viol) else "exploration",
          "coverage": cov, "assumptions": pc.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    if level == "proof" and not proved and not viol:
        ev["assumptions"] = ev["assumptions"] + ["bounded: on this source the proof is undecided (" + "; ".join(proof.notes)[:500] + "), only the search ran"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: proof %s (%d of %d obligations, %.1f s solver), search %d cases in %.1f s" % (
        pid, proof.state, proof.discharged, proof.obligations, proof.solver_ms / 1000, s["evaluations"], s["secs"]))
    for n in proof.notes:
        print("  note: " + n)
    if viol:
        print("  " + viol[1])
        print("VIOLATION property=%s replay=%s%s" % (pid, viol[0], viol[2]))
        return 1
    return 0


main()
