#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree."""
import os, sys, json, time, re, shutil, threading, traceback, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipe, core, driver, oracle
from pipe import VARIANTS, VERIF, Fail
from core import Variant, taint, THREADS
from props import P, kind_of

T0 = time.time()
def log(*a): print("[%6.1f]" % (time.time() - T0), *a, flush=True)
def left(limit): return limit - (time.time() - T0)

TRUSTED = [
    "Verus 0.2026.09.13 (VC generation) and its bundled Z3 (every obligation is discharged by Z3)",
    "verus/pre.rs: assumed contracts on deku 0.18.1 (Reader, Writer, integer/bool/Vec/Option codecs), std (Cursor, String, Vec, slices, ilog2, checked arithmetic) - external_body",
    "xlate: the mechanical translation of the macro-expanded crate into Verus syntax (what it drops is listed in DESIGN.md)",
    "rustc -Zunpretty=expanded prints the code that is compiled",
    "usize is 64 bits; inputs are shorter than 2^60 bytes; allocation does not fail",
]

class Check:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.wd = f"{pipe.TGT}/w/{prop}-{os.getpid()}"
        s.limit = 840 if tier == "quick" else 3000
        s.fail, s.lost, s.notes, s.res = [], [], [], {}
        s.bounded = {"evaluations": 0, "distinct": set(), "samples": []}
        s.full = tier == "thorough"
    # -------------------------------------------------------------- proof
    def setup(s):
        pipe.prepare(s.wd)
        s.vs = {}
        s.dead = {}
        for v in VARIANTS:
            x = Variant(s.wd, v, s.prop)
            s.vs[v] = x
        def first(x):
            try: x.first()
            except Fail as e: s.dead[x.v] = str(e); s.lost.append((x.v, "*", "translation: " + str(e)[:1500]))
        with cf.ThreadPoolExecutor(3) as ex: list(ex.map(first, s.vs.values()))
        for v, x in s.vs.items():
            if v in s.dead: continue
            x.full = s.full
            x.demote = {f["key"] for f in x.ix0["fns"] if f["kind"] == "contract" and not x.sc.relevant(f["key"])}
            for k in x.ix0["missing"]:
                if x.sc.relevant(k): s.lost.append((v, k, "the function under this contract is no longer there under its name"))
            for k, callees in x.ix0.get("opaque", {}).items():
                if x.sc.relevant(k) and k not in x.demote: s.lost.append((v, k, "calls a function without a contract that could not be inlined: " + ", ".join(callees)))
                x.demote.add(k)
            for f in x.ix0["fns"]:
                if f["kind"] == "demoted" and x.sc.relevant(f["key"]): s.lost.append((v, f["key"], "outside the translated subset"))
            if v != "spec" and not s.full and "spec" not in s.dead:
                b = taint(s.vs["spec"], x)
                x.lem_skip = set(x.g.T) - b
                base = s.vs["spec"]
                def same(k): return k in base.text0 and base.text0[k] == x.text0.get(k) and base.g.C.fns.get(k) == x.g.C.fns.get(k)
                x.demote |= {f["key"] for f in x.ix0["fns"] if x.sc.owner(f["key"]) not in b and (x.sc.owner(f["key"]) in x.g.T or same(f["key"]))}
    def prove(s, x, extra0=()):
        r = {"verified": 0, "errors": 0, "fns": [], "smt_ms": 0, "wall": 0.0, "runs": 0, "assumed": [], "cmd": ""}
        s.res[x.v] = r
        todo = {f["key"] for f in x.ix0["fns"] if f["kind"] == "contract"} - x.demote
        if x.v != "spec" and not todo and not s.full:
            r["cmd"] = "nothing that differs from variant spec in scope"
            return
        extra, hi = list(extra0), bool(extra0)
        for it in range(8):
            if left(s.limit) < 60:
                s.lost.append((x.v, "*", "out of time")); return
            rs, ix = pipe.translate(s.wd, x.v, x.contracts())
            x.rs, x.ix = rs, ix
            q = pipe.verus(rs, THREADS[x.v], timeout=max(30, left(s.limit) - 40), extra=extra)
            r["runs"] += 1
            r["wall"] += q["wall"]; r["smt_ms"] += q["smt_ms"]
            r["cmd"] = f"verus {x.v}.rs --crate-type=lib --multiple-errors 4 " + " ".join(extra)
            if q["timeout"]:
                s.lost.append((x.v, "*", "the verifier ran out of time")); return
            soft, hard, rl = [], [], []
            for e in q["errors"]:
                k = pipe.attribute(e, ix)
                (rl if pipe.is_rlimit(e["text"]) else hard if pipe.is_proof_failure(e["msg"]) else soft).append((k, e))
            r["verified"], r["errors"] = q["verified"], q["nerr"] or 0
            r["fns"] = [f["key"] for f in ix["fns"] if f["kind"] == "contract"]
            r["assumed"] = [f["key"] for f in ix["fns"] if f["kind"] == "assumed"]
            if q["ok"] and not q["errors"]:
                if q["verified"] == 0: s.lost.append((x.v, "*", "the verifier reported nothing verified"))
                return
            if soft:
                ks = {k for k, e in soft if k}
                if not ks:
                    s.lost.append((x.v, "*", "not accepted by the verifier's front end: " + soft[0][1]["text"][:1500])); return
                loose = {f["key"] for f in ix["fns"] if f["kind"] == "uncontracted"} & ks - x.omit
                new = ks - x.demote - loose
                if loose: x.omit |= loose
                if not new and loose: continue
                if not new:
                    s.lost.append((x.v, "*", "not accepted by the verifier's front end: " + soft[0][1]["text"][:1500])); return
                for k in new:
                    x.demote.add(k)
                    s.lost.append((x.v, k, "outside the verifier's subset: " + next(e["text"] for kk, e in soft if kk == k)[:600]))
                log(x.v, "taken out:", *sorted(new))
                continue
            if rl and not hi:
                hi = True; extra += ["--rlimit", "50"]
                log(x.v, "resource limit, retrying:", *{str(k) for k, _ in rl})
                continue
            for k, e in rl: s.lost.append((x.v, k or pipe.lemma_at(e, rs) or "?", "the solver gave no answer: " + e["text"][:300]))
            for k, e in hard: s.fail.append((x.v, k or "lemma " + str(pipe.lemma_at(e, rs)), e["msg"], e["text"]))
            if not hard and not rl: s.lost.append((x.v, "*", "unexplained verifier failure: " + q["log"][-1500:]))
            return
        s.lost.append((x.v, "*", "too many rounds"))
    def again(s):
        """failed obligations for which no failing input turned up: another solver seed and a larger resource limit; what fails both times stands.
        A lemma is about the wire description only, not about code: one that fails both times is lost, not a violation"""
        first, s.fail = s.fail, []
        keep = {v: s.res[v] for v in {f[0] for f in first}}
        log("no failing input, proving again with another seed")
        with cf.ThreadPoolExecutor(3) as ex: list(ex.map(lambda v: s.prove(s.vs[v], ["--rlimit", "60", "--smt-option", "smt.random_seed=7"]), keep))
        both = {(v, k) for v, k, *_ in s.fail}
        gone = {v for v in keep if any(l[0] == v and l[1] == "*" for l in s.lost)}
        s.fail = [f for f in first if f[:2] in both or f[0] in gone]
        for v in keep:
            n = len({k for w, k, *_ in s.fail if w == v})
            t = keep[v]["verified"] + keep[v]["errors"]
            s.res[v]["verified"], s.res[v]["errors"] = t - n, n
        s.lost += [(v, k, "not proved: " + m) for v, k, m, _ in s.fail if k.startswith("lemma ")]
        s.fail = [f for f in s.fail if not f[1].startswith("lemma ")]
        # the invariants under contract are those of the original loops: where a function loops differently now, they prove nothing
        # about it either way, and the bounded search stands in
        base = json.load(open(os.path.join(pipe.VERIF, "spec/shapes.json")))
        def reshaped(v, k): return any(f["key"] == k and f.get("shape", "") != base.get(v, {}).get(k, "") for f in s.vs[v].ix0["fns"])
        s.lost += [(v, k, "not proved; its loops are not the ones the invariants were written for: " + m) for v, k, m, _ in s.fail if reshaped(v, k)]
        s.fail = [f for f in s.fail if not reshaped(*f[:2])]
    # -------------------------------------------------------------- bounded search on the real code
    def search(s, why, budget):
        """why: {variant: set of type names to look at first, or None for all}; returns a failing case or None"""
        found, lock = [], threading.Lock()
        kinds = P[s.prop]["kinds"] + P[s.prop].get("oracle", "")
        def one(v):
            x = s.vs[v]
            try: exe, drop = driver.build(x.g)
            except Fail as e:
                s.notes.append(f"bounded search in variant {v} not possible: {str(e)[:800]}"); return
            if drop: s.notes.append(f"bounded search in variant {v} leaves out {sorted(drop)}")
            t1 = time.time()
            names = [n for n in x.g.T if n in (x.sc.types | x.sc.also | x.extra_types()) and not n.startswith("Lp") and n not in driver.HIDDEN and n not in drop]
            near = why.get(v)
            focus = []
            if near:
                users = {n for n in x.g.T if x.g.closure([n]) & near}
                focus = [n for n in names if n in near] + [n for n in names if n in users and n not in near]
            r = driver.Runner(exe)
            seed = s.seed
            rnd = 0
            while time.time() - t1 < budget and not found:
                o = oracle.Oracle(x.g, seed * 1000 + rnd)
                order = (focus or names) if rnd % 3 != 2 else names
                N = [60, 300, 1000][min(rnd, 2)]
                for n in order + ["@hand"]:
                    if found or time.time() - t1 > budget: break
                    it = o.cases(n, N) if n != "@hand" else o.hand(lambda m: m in names, max(8, N // 4)) if "H" in kinds else ()
                    cs = []
                    for f in it:
                        try:
                            c = f()
                            if c: cs.append(c)
                        except (oracle.Bad, driver.NoTok): pass
                    if n == "VarInt" and rnd == 0 and "H" in kinds:
                        list(o.hand(lambda m: False, 0))
                        cs += [o.vi(k, c) for k in range(0, 507910, 1) for c in (False, True)] if s.tier == "thorough" or near else []
                    out = r.batch([c[0] for c in cs], 30)
                    with lock:
                        s.bounded["evaluations"] += len(cs)
                        s.bounded["distinct"] |= {hash((v, c[0])) for c in cs}
                        if cs and len(s.bounded["samples"]) < 6: s.bounded["samples"].append(f"{v}: {cs[0][0][:200]}")
                    for c, l in zip(cs, out):
                        j = oracle.judge(c, l, kinds)
                        if j:
                            with lock: found.append((v, c, j, l))
                            break
                rnd += 1
                if rnd >= (3 if budget < 20 else 40): break
            r.close()
        with cf.ThreadPoolExecutor(3) as ex: list(ex.map(one, list(why)))
        return found[0] if found else None
    # -------------------------------------------------------------- outcome
    def run(s):
        findings = known(s.prop)
        s.setup()
        log("translated;", {v: len([f for f in x.ix0["fns"] if f["kind"] == "contract"]) - len(x.demote) for v, x in s.vs.items() if v not in s.dead}, "functions to verify")
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(s.prove, x) for v, x in s.vs.items() if v not in s.dead]
            for f in fs: f.result()
        log("verifier:", {v: (r["verified"], r["errors"], round(r["wall"], 1)) for v, r in s.res.items()})
        for v, k, m, _ in s.fail[:12]: log("FAILED", v, k, m)
        for v, k, m in s.lost[:12]: log("not proved", v, k, m.split("\n")[0][:160])
        viol, replay = None, f"{VERIF}/evidence/{s.prop}.replay.txt"
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        hit = None
        if s.fail or s.lost:
            why = {}
            for v, k, *_ in s.fail + s.lost:
                x = s.vs[v]
                o = x.sc.owner(k) if k != "*" else None
                why.setdefault(v, set())
                if o and o in x.g.T: why[v].add(o)
                m = re.match(r"lemma (?:d|w|rt|dl|ap|mn|al)\w*?_(\w+)", k)
            if any(k == "*" or s.vs[v].sc.owner(k) in (None, "utils") for v, k, *_ in s.fail + s.lost): why = {v: None for v in VARIANTS} if any(k == "*" for _, k, *_ in s.lost) else {v: None for v in why}
            hit = s.search(why, min(90 if not s.full else 600, max(20, left(s.limit) - 30)))
            if s.fail and not hit and left(s.limit) > 120: s.again()
        elif s.full: hit = s.search({v: None for v in VARIANTS}, 120)
        if hit:
            v, c, j, l = hit
            open(replay, "w").write(json.dumps({"property": s.prop, "variant": v, "type": c[2], "input": c[0], "field": j[0], "expected": j[1], "got": j[2],
                "failed_obligations": [f"{a} {b}: {m}" for a, b, m, _ in s.fail], "replay": f"python3 {VERIF}/lib/replay.py {replay}",
                "format": "D type skip-bits byte-count bytes.. context.. (decode) | V type skip-bits context.. field values.. (encode) | H function arguments.. | Z type (default)"}, indent=1) + "\n" + "\n\n".join(t for *_, t in s.fail[:6]))
            viol = f"VIOLATION property={s.prop} replay={replay}"
            log("input:", v, c[0][:300]); log("expected:", j[1][:400]); log("got:     ", j[2][:400])
        elif s.fail:
            open(replay, "w").write(json.dumps({"property": s.prop, "failed_obligations": [{"variant": a, "function": b, "obligation": m, "verifier": t} for a, b, m, t in s.fail],
                "bounded_search": {k: (len(x) if isinstance(x, set) else x) for k, x in s.bounded.items()}}, indent=1))
            viol = f"VIOLATION property={s.prop} replay={replay} no-failing-input-found"
        s.evidence(1 if viol else 0)
        for f in findings: print(f"KNOWN-FINDING: property={s.prop} {f}", flush=True)
        if viol: print(viol, flush=True); return 1
        for n in s.notes: log("note:", n)
        print(f"OK property={s.prop}" + (" (partly bounded: " + str(len(s.lost)) + " function(s) or lemma(s) checked by bounded search only)" if s.lost else ""), flush=True)
        return 0
    def evidence(s, nv):
        disc = sum(r["verified"] for r in s.res.values())
        errs = sum(r["errors"] for r in s.res.values())
        cov = {"obligations": disc + errs, "discharged": disc, "checker_cmd": "; ".join(f"{v}: {r['cmd']}" for v, r in s.res.items()),
               "trusted_base": TRUSTED + [f"assumed contract: {k} ({v})" for v, r in s.res.items() for k in r["assumed"] if s.vs[v].sc.relevant(k)],
               "functions_under_contract": {v: len(r["fns"]) for v, r in s.res.items()},
               "functions": sorted({k for r in s.res.values() for k in r["fns"]}),
               "solver_ms": {v: r["smt_ms"] for v, r in s.res.items()}, "verifier_wall_s": {v: round(r["wall"], 1) for v, r in s.res.items()},
               "back_end": "Z3 (bundled with Verus)",
               "bounded": {"evaluations": s.bounded["evaluations"], "distinct_nontrivial": len(s.bounded["distinct"]), "samples": s.bounded["samples"],
                           "rule": "random and mutated encodings and values of the types in scope run through the real code and compared with the wire description; labelled bounded, never counted as proved",
                           "stands_in_for": [f"{v}: {k}: {m.splitlines()[0][:200]}" for v, k, m in s.lost]},
               "failed": [f"{v} {k}: {m}" for v, k, m, _ in s.fail]}
        if nv == 0 and not s.lost and (disc == 0 or errs): raise Fail("nothing was proved")
        json.dump({"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "proof", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - T0, 1), "violations": nv},
                  open(f"{VERIF}/evidence/{s.prop}.json", "w"), indent=1)

ASSUME = ["the identical translated text of a function or lemma in two variants is verified once (quick tier); the thorough tier verifies each variant separately",
          "derived Debug/Clone/PartialEq, Display and the command-line front end are not under contract",
          "unsafe code: utils::read_array is verified against assumed contracts on MaybeUninit arrays (write, assume_init, drop_in_place of a prefix: every element touched must be initialised)"]

def known(prop):
    out = []
    for l in open(VERIF + "/known-findings.txt"):
        m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", l)
        if m and m.group(1) == prop: out.append(m.group(2).strip())
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try: return c.run()
    except Fail as e:
        print("cannot decide:", e, flush=True)
        return 2
    finally:
        if not os.environ.get("DASH7_KEEP"): shutil.rmtree(c.wd, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
