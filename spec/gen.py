"""Generates the contracts for one variant: python3 gen.py VARIANT OUT.json"""
import sys, os, json, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import schema, codec, hand
HERE = os.path.dirname(os.path.abspath(__file__))

def expand(t):
    def f(m):
        out = ""
        for it in m.group(1).split():
            a, b = it.split(":")
            out += m.group(2).replace("@T", a).replace("@B", b)
        return out
    return re.sub(r"//@FOR T in ([^\n]*)\n(.*?)//@END\n", f, t, flags=re.S)

def split_items(text):
    """top-level items of a generated module: each starts at a line beginning with `pub ` or an attribute"""
    items, cur, attr = [], "", False
    for ln in text.split("\n"):
        if (ln.startswith("pub ") or ln.startswith("#[")) and not attr:
            if cur: items.append(cur)
            cur = ""
        attr = ln.startswith("#[")
        cur += ln + "\n"
    return items + [cur]

class Gen:
    """contracts of one variant. types: name -> Ty (with .keys, the contract keys it owns); deps: name -> names"""
    def __init__(s, variant):
        s.variant = variant
        s.T = schema.build(variant)
        s.C = codec.Contracts()
        s.text = {}
        for n, t in s.T.items():
            s.text[n] = t.emit()
            t.contracts(s.C)
        leaf = set(s.T)
        hand.add(s.C, s.T, variant)
        s.leaves = [n for n in s.T if n not in leaf]
        s.deps = {}
        for n in s.T:
            sp = "\n".join(i for i in split_items(s.text.get(n, "")) if not i.startswith("pub proof"))
            s.deps[n] = {x for x in re.findall(r"\b(?:d|w|ok|wr|fin)_(\w+)", sp) if x in s.T and x != n}
            s.deps[n] |= {x for x, t in s.T.items() if x != n and re.search(r"\b%s\b" % re.escape(getattr(t, "path", "@")), sp)}
        s.base = expand(open(HERE + "/base.rs").read())
        s.lem = hand.lemmas(s.T)
    def closure(s, roots, stop=()):
        todo, out = [r for r in roots if r in s.T], set()
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                if x not in stop: todo += s.deps[x]
        return out
    def top(s, lemmas=None):
        return s.top_(lambda n, l: "v" if lemmas is None or n in lemmas else "")
    def top_(s, want, assume_base=False):
        """want(type, lemma): 'v' proved here, 'a' assumed here, '' left out"""
        sp = "pub mod sp {\nuse vstd::prelude::*;\nuse crate::pre::*;\n" + s.base
        for n, x in s.text.items():
            keep = ""
            for it in split_items(x):
                m = re.match(r"pub proof fn (\w+)", it)
                w = want(n, m.group(1)) if m else "v"
                if w: keep += ("#[verifier::external_body] " if w == "a" else "") + it
            sp += f"pub use x_{n}::*;\npub mod x_{n} {{\nuse vstd::prelude::*;\nuse crate::pre::*;\nuse crate::sp::*;\n{keep}\n}}\n"
        top = open(HERE + "/../verus/pre.rs").read() + sp + s.lem + "}\n"
        if assume_base:
            # the vocabulary is the same text in every variant: its lemmas are proved in the base variant
            k = top.index("pub use x_")
            top = re.sub(r"(?m)^(\s*)(pub (?:broadcast )?proof fn )", r"\1#[verifier::external_body] \2", top[:k]) + top[k:]
        return top
    def contracts(s, lemmas=None, demote=()):
        return {"top": s.top(lemmas), "impls": s.C.impls, "fns": s.C.fns, "demote": sorted(demote)}

def build(variant):
    g = Gen(variant)
    return g.T, g.C, g.top()

if __name__ == "__main__":
    json.dump(Gen(sys.argv[1]).contracts(), open(sys.argv[2], "w"))
