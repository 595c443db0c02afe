import os, sys, json, time, re, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipe, gen
from pipe import VARIANTS, Fail
from scope import Scope
from props import kind_of

THREADS = {"spec": 6, "subiot": 4, "subiot_v0_0": 4, "wizzilab": 6}

def assume_lemma(it): return "#[verifier::external_body] " + it

class Variant:
    """one protocol variant of the crate under one property"""
    def __init__(s, wd, v, prop):
        s.wd, s.v, s.g = wd, v, gen.Gen(v)
        s.sc = Scope(s.g, prop)
        s.demote, s.skip_same, s.notes = set(), set(), []
        s.lem_skip, s.full, s.omit = set(), False, set()
    def extra_types(s): return {s.sc.own[k] for k in s.sc.own if s.sc.extra and re.search(s.sc.extra, k) or kind_of(k) in s.sc.all}
    def contracts(s):
        g, sc = s.g, s.sc
        def want(n, l):
            x = sc.lemma(n, l)
            if x == "v" and n in s.lem_skip: x = "a"
            return x
        return {"top": g.top_(want, s.v != "spec" and not s.full), "impls": g.C.impls, "fns": g.C.fns, "demote": sorted(s.demote), "omit": sorted(s.omit)}
    def first(s):
        """translate with nothing left out, to learn which functions there are"""
        s.rs0, s.ix0 = pipe.translate(s.wd, s.v, {"top": "", "impls": s.g.C.impls, "fns": s.g.C.fns, "demote": []}, ".all")
        s.text0 = pipe.fn_text(s.rs0, s.ix0)

def taint(base, v):
    """types of variant v that differ from the base variant in code or specification, and everything made of them"""
    def keyed(x):
        d = {}
        for k, t in x.text0.items(): d.setdefault(x.sc.owner(k) or "?", {})[k] = t
        return d
    a, b = keyed(base), keyed(v)
    bad = {n for n in v.g.T if n not in base.g.T or v.g.text.get(n) != base.g.text.get(n) or a.get(n) != b.get(n)
           or {k: x for k, x in v.g.C.impls.items() if v.sc.own.get(k) == n} != {k: x for k, x in base.g.C.impls.items() if base.sc.own.get(k) == n}
           or any(v.g.C.fns.get(k) != base.g.C.fns.get(k) for k in v.g.C.fns if v.sc.own.get(k) == n)}
    bad |= {n for n in base.g.T if n not in v.g.T}
    for o in ("utils", "?"):
        if any(b.get(o, {}).get(k, x) != x for k, x in a.get(o, {}).items()): bad |= set(v.g.T)
    while True:
        more = {n for n in v.g.T if n not in bad and v.g.deps[n] & bad}
        if not more: return bad
        bad |= more
