"""Scope of one property in one variant: which functions are verified, which lemmas are proved."""
import re
from props import P, kind_of

def owners(g):
    """impl/function contract key -> type name (or 'utils')"""
    own = {}
    for n, t in g.T.items():
        for k in t.keys: own[k] = n
    by = {}
    for n, t in g.T.items(): by.setdefault((getattr(t, "mod", None), getattr(t, "tn", None)), n)
    for k in list(g.C.impls) + list(g.C.fns):
        if k in own: continue
        p = k
        if "|" in k:
            m, _, rest = k.split("|", 2)
            ty = re.split(r"::|<", rest)[0]
        else:
            a = k.split("::")
            m, ty = "::".join(a[:-2]), a[-2]
        if k.startswith("utils::") or re.search(r"::\w*length_prefixed\w*$", k): own[k] = "utils"; continue
        base = k[:k.rindex("::")] if "::" in k.split("|")[-1] and k[:k.rindex("::")] in own else None
        if base: own[k] = own[base]; continue
        n = by.get((m, ty))
        if n is None: n = next((x for x, t in g.T.items() if getattr(t, "tn", None) == ty and getattr(t, "mod", None) and (t.mod.startswith(m) or m.startswith(t.mod))), None)
        own[k] = n or "utils"
    return own

def leaves(t):
    for f in getattr(t, "fields", None) or []: yield from (x for x in (f if isinstance(f, (tuple, list)) else [f]) if hasattr(x, "rust"))
    for a in ("vs", "av"):
        for f in getattr(t, a, None) or []: yield from (x for x in f if hasattr(x, "rust"))
def arr(l):
    k = type(l).__name__
    return k in ("ArrL", "StrL") or k == "SeqL" and l.arr or k == "OptL" and arr(l.inner)

class Scope:
    def __init__(s, g, prop):
        c = P[prop]
        s.g, s.prop, s.kinds = g, prop, c["kinds"]
        roots = []
        for r in c["roots"]:
            if r == "*": roots += list(g.T)
            elif r == "@enum": roots += [n for n, t in g.T.items() if type(t).__name__ == "IdEnum"]
            elif r == "@arr": roots += [n for n, t in g.T.items() if any(arr(x) for x in leaves(t))]
            elif r in g.T: roots.append(r)
        s.roots = roots
        s.types = g.closure(roots, c.get("stop", ())) if c["deep"] else set(roots)
        s.all = c.get("all", "")       # kinds taken from every type
        s.also = set(c.get("also", ()))
        s.own = owners(g)
        s.extra = c.get("extra")
        s.lem_types = g.closure(roots)
        s.rw = "W" in s.kinds and "R" in s.kinds
    def owner(s, key):
        while True:
            if key in s.own: return s.own[key]
            if "::" not in key: return None
            key = key[:key.rindex("::")]
    def relevant(s, key):
        o = s.owner(key)
        if o is None: return False
        if s.extra and re.search(s.extra, key): return True
        if o == "utils": return True
        return (o in s.types and kind_of(key) in s.kinds) or o in s.also or kind_of(key) in s.all
    def lemma(s, t, l):
        """'v' proved, 'a' assumed here (proved by a wider check), '' left out"""
        if t not in s.lem_types: return ""
        if s.rw: return "v" if t in s.types else "a"
        if "R" in s.kinds: return "v"
        return "a"
