"""From /repo's working tree to discharged obligations: macro-expand, translate, verify."""
import os, re, sys, json, time, subprocess, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DASH7_REPO", "/repo")
sys.path.insert(0, VERIF + "/spec")
import gen
VARIANTS = ["spec", "subiot", "subiot_v0_0", "wizzilab"]
TGT = os.environ.get("DASH7_TARGET", VERIF + "/target")

def sh(cmd, cwd=None, env=None, timeout=900, out=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout, p.stderr

class Fail(Exception): pass

def build_xlate():
    rc, _, err = sh(["cargo", "build", "--offline", "-q", "--manifest-path", VERIF + "/xlate/Cargo.toml"], env={"CARGO_TARGET_DIR": TGT + "/xlate"})
    if rc: raise Fail("translator does not build: " + err[-2000:])

def expand(v, wd):
    rc, out, err = sh(["cargo", "+nightly", "rustc", "--offline", "--locked", "-q", "-p", "dash7", "--lib", "--no-default-features", "-F", "std," + v, "--", "-Zunpretty=expanded"],
                      cwd=REPO, env={"CARGO_TARGET_DIR": f"{TGT}/exp-{v}"})
    if rc or len(out) < 1000: raise Fail(f"cannot expand variant {v}: " + err[-2000:])
    open(f"{wd}/{v}.exp.rs", "w").write(out)

def prepare(wd, extra=()):
    """builds the translator and expands the three variants, in parallel with `extra` thunks"""
    os.makedirs(wd, exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build_xlate)] + [ex.submit(expand, v, wd) for v in VARIANTS] + [ex.submit(f) for f in extra]
        for f in fs: f.result()

def translate(wd, v, contracts, tag=""):
    cj, rs, ix = f"{wd}/{v}{tag}.json", f"{wd}/{v}{tag}.rs", f"{wd}/{v}{tag}.ix.json"
    json.dump(contracts, open(cj, "w"))
    rc, out, err = sh([TGT + "/xlate/debug/xlate", f"{wd}/{v}.exp.rs", cj, rs, ix])
    if rc: raise Fail(f"translation of variant {v} failed: " + (out + err)[-2000:])
    return rs, json.load(open(ix))

def fn_text(rs, ix):
    L = open(rs).read().split("\n")
    return {f["key"]: "\n".join(L[f["start"] - 1:f["end"] - 1]) for f in ix["fns"]}

def verus(rs, threads, timeout=700, extra=()):
    t = time.time()
    try:
        rc, out, err = sh(["verus", os.path.basename(rs), "--crate-type=lib", "--num-threads", str(threads), "--multiple-errors", "4", "--output-json", "--time", *extra], cwd=os.path.dirname(rs), timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"ok": False, "timeout": True, "errors": [], "verified": 0, "nerr": 0, "smt_ms": 0, "wall": time.time() - t, "log": "timeout"}
    open(rs + ".log", "w").write(err)
    res = {"ok": False, "timeout": False, "errors": [], "verified": 0, "nerr": None, "smt_ms": 0, "wall": time.time() - t, "log": err}
    try:
        j = json.loads(out[out.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"], res["nerr"], res["ok"] = vr.get("verified", 0), vr.get("errors"), bool(vr.get("success"))
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        res["vir_err"] = vr.get("encountered-vir-error", False)
    except Exception:
        pass
    for b in re.split(r"\n(?=error|warning|note)", "\n" + err):
        b = b.lstrip("\n")
        if not b.startswith("error") or "aborting due to" in b.split("\n")[0]: continue
        fn = os.path.basename(rs)
        ls = [int(x) for x in re.findall(r"^\s*(\d+) +[|/]", b, re.M)] + [int(x) for x in re.findall(r"--> " + re.escape(fn) + r":(\d+):", b)]
        res["errors"].append({"msg": b.split("\n")[0], "lines": ls, "text": b[:3000]})
    return res

PROOF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "loop invariant not satisfied", "possible arithmetic", "possible division by zero", "decreases not satisfied", "recommendation not met", "split", "possible bit shift", "index", "unable to prove")
def is_proof_failure(msg):
    m = msg[len("error: "):] if msg.startswith("error: ") else ""
    return any(m.startswith(x) for x in PROOF_MSGS)
def is_rlimit(msg): return "rlimit" in msg or "Resource limit" in msg or "canceled" in msg or "timed out" in msg

def attribute(e, ix):
    """key of the function an error message points into: the one whose body (not only whose header, which a
    message also quotes as a callee's contract) holds one of the quoted lines; None outside the crate's functions"""
    best = None
    for f in ix["fns"]:
        for l in e["lines"]:
            if f["start"] <= l < max(f["end"], f["start"] + 1):
                r = 0 if l >= f.get("body", f["start"]) else 1
                if best is None or r < best[0]: best = (r, f["key"])
    return best[1] if best else None

def lemma_at(e, rs):
    """name of the spec lemma an error points into (lines of the generated prelude)"""
    L = open(rs).read().split("\n")
    for l in sorted(set(e["lines"])):
        for k in range(l - 1, max(l - 60, 0), -1):
            m = re.match(r"\s*pub (?:broadcast )?proof fn (\w+)", L[k])
            if m: return m.group(1)
    return None
