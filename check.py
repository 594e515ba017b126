#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property:
 1. extracts the functions of the property's units from /repo's working tree (extract/), splices in the
    contracts (verus/*.vrs) and has Verus discharge every obligation;
 2. on a failed obligation, searches for a concrete failing input with the executable oracle (harness/),
    which runs the real crates of /repo;
 3. when the text cannot be brought within the verifier's reach (lost anchor, unsupported construct,
    resource limit), the oracle's bounded search decides, and the evidence says so.
Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path> [no-failing-input-found]".  2: no answer.
"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from units import PROPS  # noqa: E402

BUILD = os.path.join(V, "build")
GENUINE = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
    r"recursion|could not prove termination|possible bit shift|index out of|not satisfied|cannot show|possible ")
UNREACH = re.compile(r"not supported|Resource limit|rlimit|error\[E\d+\]|unsupported|The verifier does not yet|internal error|panicked")


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTC_WRAPPER"] = ""
    return e


def sh(cmd, cwd=V, timeout=600, extra=None):
    e = env()
    if extra:
        e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode("utf8", "replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), "timeout"


def build_extractor():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "extract"), timeout=600)
    if rc != 0:
        print(e[-3000:], file=sys.stderr)
        return False
    return True


def split_errors(stderr):
    """error messages of rustc/Verus, each with its location text"""
    out, cur = [], None
    for line in stderr.splitlines():
        if line.startswith("error"):
            cur = [line]
            out.append(cur)
        elif line.startswith(("warning", "note: verifying", "verification results")):
            cur = None
        elif cur is not None:
            cur.append(line)
    return ["\n".join(x) for x in out if not x[0].startswith("error: aborting") and not x[0].startswith("error: could not compile")]


def fn_of(gen_lines, msg):
    """name the function under contract an error is in"""
    m = re.search(r"--> \S+?:(\d+):", msg)
    if not m:
        return None
    n = min(int(m.group(1)), len(gen_lines))
    names = []
    for i in range(n - 1, -1, -1):
        g = re.match(r"\s*// from (\S+):(\d+) (\S+)", gen_lines[i])
        if g:
            return f"{g.group(3)} ({g.group(1)}:{g.group(2)})"
        g = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", gen_lines[i])
        if g:
            return f"lemma {g.group(1)}"
    return names[0] if names else None


def prove(unit, tier):
    """-> dict(status= proved|failed|unreachable, ...)"""
    gen = os.path.join(BUILD, unit + ".rs")
    meta = os.path.join(BUILD, unit + ".json")
    r = {"unit": unit, "file": gen, "failed": [], "reason": "", "verified": 0, "errors": 0, "smt_ms": 0, "functions": [], "trusted": [], "dropped": {}, "desugared": {}, "inlined": [], "lost": [], "helpers": [], "gone": []}
    rc, o, e = sh([os.path.join(V, "extract/target/debug/vextract"), REPO, os.path.join(V, "verus", unit + ".vrs"), gen, meta], timeout=120)
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            r["functions"] = m.get("functions", [])
            r["dropped"] = m.get("dropped", {})
            r["desugared"] = m.get("desugared", {})
            r["inlined"] = m.get("inlined", [])
            r["lost"] = m.get("lost", [])
            r["helpers"] = m.get("helpers", [])
            r["gone"] = m.get("gone", [])
        except Exception:
            pass
    if rc != 0:
        r["status"] = "unreachable"
        r["reason"] = "extraction: " + (o + e)[-1500:]
        return r
    text = open(gen).read()
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if re.search(r"verifier ?:: ?external_body|external_body", l) and "//" not in l[:2]:
            nm = re.search(r"fn (\w+)", " ".join(lines[i:i + 3]))
            if nm:
                r["trusted"].append("external_body " + nm.group(1))
        for a in re.finditer(r"axiom fn (\w+)", l):
            r["trusted"].append("axiom " + a.group(1))
        for a in re.finditer(r"assume_specification\s*\[\s*([^\]]+)\]", l):
            r["trusted"].append("assumed spec " + a.group(1).strip())
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            r["trusted"].append("assume at generated line %d" % (i + 1))
    base = ["verus", gen, "--crate-name", unit, "--multiple-errors", "4", "--rlimit", "60" if tier == "quick" else "200", "--num-threads", "6"]
    rc, o, e = sh(base + ["--output-json", "--time"], cwd=BUILD, timeout=500)
    r["checker_cmd"] = " ".join(base)
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        ok = vr.get("success", False) and not vr.get("encountered-vir-error", False)
    except Exception:
        ok = False
    r["output"] = e[-12000:]
    if ok and rc == 0:
        r["status"] = "proved"
        return r
    for msg in split_errors(e):
        head = msg.splitlines()[0]
        if UNREACH.search(head) and not GENUINE.search(head.replace("not supported", "")):
            r["reason"] = r["reason"] or msg[:1500]
        elif GENUINE.search(head) and "error[E" not in head:
            r["failed"].append({"obligation": head.replace("error: ", ""), "function": fn_of(lines, msg), "text": msg[:2500]})
        else:
            r["reason"] = r["reason"] or msg[:1500]
    # obligations of a text the contracts were not written for: a loop of another shape than its invariants,
    # a callee that has no contract and cannot be inlined.  They say nothing about the property.
    lost = {x.split(": ")[0] for x in r["lost"]}
    if r["helpers"] or r["gone"]:
        r["reason"] = r["reason"] or "called without a contract: %s; helpers that are gone: %s" % (", ".join(r["helpers"]), ", ".join(r["gone"]))
        r["unjudged"], r["failed"] = r["failed"], []
    elif any((f["function"] or "").split(" ")[0] in lost for f in r["failed"]):
        r["reason"] = r["reason"] or "loops without their invariants: " + "; ".join(r["lost"])
        r["unjudged"] = [f for f in r["failed"] if (f["function"] or "").split(" ")[0] in lost]
        r["failed"] = [f for f in r["failed"] if (f["function"] or "").split(" ")[0] not in lost]
    if r["failed"] and not r["reason"]:
        r["status"] = "failed"
    elif r["failed"] and r["errors"] > 0:
        r["status"] = "failed"  # obligations failed; others ran out of resources
    else:
        r["status"] = "unreachable"
        r["reason"] = r["reason"] or "the verifier gave no answer: " + e[-1500:]
    return r


def probe(unit):
    """vacuity: with the unit's axioms in scope, False must not be provable"""
    gen = os.path.join(BUILD, unit + ".rs")
    t = open(gen).read()
    k = t.rindex("fn main")
    k = t.rindex("}", 0, k)
    p = os.path.join(BUILD, unit + "_probe.rs")
    open(p, "w").write(t[:k] + """
pub proof fn vp_probe(a: String, b: String, s: Seq<int>, v: Vec<String>, n: int) ensures false { assert(a@ == b@ || a@ != b@); }
""" + t[k:])
    rc, o, e = sh(["verus", p, "--crate-name", unit + "_probe", "--verify-root", "--verify-function", "vp_probe"], cwd=BUILD, timeout=200)
    return "1 errors" in o + e and "postcondition not satisfied" in e


def harness(binname, seed, secs, out):
    t0 = time.time()
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--bin", binname], cwd=os.path.join(V, "harness"), timeout=600)
    if rc != 0:
        return {"status": "unbuilt", "log": e[-3000:], "build_s": time.time() - t0}
    if os.path.exists(out):
        os.remove(out)
    exe = os.path.join(V, "harness/target/debug", binname)
    rc, o, e = sh([exe, "--seed", str(seed), "--secs", str(secs), "--out", out], timeout=int(secs * 3 + 240))
    r = {"build_s": time.time() - t0, "log": (o + e)[-6000:], "cmd": f"{exe} --seed {seed} --secs {secs}"}
    if rc == 1 and "FOUND" in o:
        r["status"] = "found"
        return r
    if rc == 0 and "NONE" in o:
        r["status"] = "none"
        m = re.search(r"cases=(\d+) skipped=(\d+)", o)
        r["cases"], r["skipped"] = int(m.group(1)), int(m.group(2))
        r["notes"] = re.findall(r"NOTE (.*)", o)
        r["known"] = re.findall(r"KNOWN (\S+) (.*)", o)
        return r
    # abort / stack overflow / timeout of the code under check
    r["status"] = "crashed" if rc not in (124,) else "timeout"
    r["rc"] = rc
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not build_extractor():
        print("ERROR extractor does not build")
        return 2
    proofs = [prove(u, tier) for u in P["units"]]
    vac = [u for u in P["units"] for q in proofs if q["unit"] == u and q["status"] == "proved" and (q["verified"] == 0 or not probe(u))]
    replay = os.path.join(BUILD, "replay_%s.json" % pid)
    secs = P["secs"][0 if tier == "quick" else 1]
    failed = [q for q in proofs if q["status"] == "failed"]
    unreach = [q for q in proofs if q["status"] == "unreachable"]
    if failed or unreach:
        secs = max(secs, 60)
    h = harness(P["bin"], seed, secs, replay + ".input")

    known = []
    try:
        for k in json.load(open(os.path.join(V, "known_findings.json"))):
            if k.get("property") == pid and k.get("status") == "known":
                known.append(k["what"])
    except FileNotFoundError:
        pass

    status, nfi = 0, False
    if vac:
        print("ERROR vacuity probe failed for", vac)
        return 2
    if h["status"] == "found" or h["status"] == "crashed":
        status = 1
    elif failed:
        status, nfi = 1, True
    elif h["status"] in ("unbuilt", "timeout"):
        if unreach:
            print("ERROR no answer:", unreach[0]["reason"][:2000], h["log"][-2000:])
            return 2
        print("NOTE oracle unavailable (%s); the proof alone decides" % h["status"])

    obligations = sum(q["verified"] + q["errors"] for q in proofs)
    discharged = sum(q["verified"] for q in proofs)
    proved = not failed and not unreach
    trusted = sorted(set(x for q in proofs for x in q["trusted"]))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(q.get("checker_cmd", "verus (not reached: %s)" % q["unit"]) for q in proofs),
        "trusted_base": trusted + ["Verus 0.2026.09.13 with Z3", "the extractor /verif/extract", "rustc"] + P.get("trust", []),
        "back_end": "Verus/Z3", "solver_ms": sum(q["smt_ms"] for q in proofs),
        "functions_under_contract": sorted(set(f"{f['name']} ({f['file']}:{f['lines'][0]}-{f['lines'][1]})" for q in proofs for f in q["functions"])),
        "units": {q["unit"]: {"status": q["status"], "verified": q["verified"], "errors": q["errors"], "reason": q["reason"][:800]} for q in proofs},
        "extraction_drops": {q["unit"]: q["dropped"] for q in proofs},
        "extraction_desugars": {q["unit"]: q["desugared"] for q in proofs},
        "helpers_inlined": {q["unit"]: q["inlined"] for q in proofs},
        "vacuity_probe": "passed" if proved else "not run on failed units",
        "oracle_search": {k: h.get(k) for k in ("status", "cases", "skipped", "notes", "cmd")},
    }
    if not proved:
        cov["explanation"] = "not proved on this tree: the bounded oracle search (counts under oracle_search) stands in for: " + ", ".join(q["unit"] for q in proofs if q["status"] != "proved")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if proved else "other", "coverage": cov,
          "assumptions": P.get("assume", []) + ["trusted: " + t for t in trusted], "wall_s": round(time.time() - t0, 2), "violations": 1 if status else 0}
    if not proved and "explanation" not in cov:
        cov["explanation"] = "see units"
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

    for q in proofs:
        print(f"unit {q['unit']}: {q['status']} ({q['verified']} verified, {q['errors']} errors, smt {q['smt_ms']} ms)" + (("  [" + q["reason"].splitlines()[0][:200] + "]") if q["reason"] else ""))
        for f in q["failed"]:
            print(f"  FAILED OBLIGATION {f['obligation']} in {f['function']}")
    print(f"oracle: {h['status']} {h.get('cases', '')}")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if status:
        inp = None
        if os.path.exists(replay + ".input"):
            try:
                inp = json.load(open(replay + ".input"))
            except Exception:
                inp = open(replay + ".input").read()
        rep = {"property": pid, "failed_obligations": [f for q in failed for f in q["failed"]],
               "failing_input": inp, "oracle": {"status": h["status"], "cmd": h.get("cmd"), "log": h["log"][-4000:]},
               "verifier_output": {q["unit"]: q.get("output", "")[-6000:] for q in failed}}
        json.dump(rep, open(replay, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={replay}" + (" no-failing-input-found" if nfi else ""))
    return status


if __name__ == "__main__":
    sys.exit(main())
