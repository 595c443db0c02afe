"""Wire-format description: one description per type gives the Verus specification (decoder, encoder,
well-formedness, lemmas) and an executable oracle used to look for concrete inputs."""
import re

class Bad(Exception):
    pass

# ------------------------------------------------------------------ values of the oracle
class Rec:
    """value of a struct ('s' named, 't' tuple, 'u' unit) or of an enum variant"""
    __slots__ = ("name", "kind", "items", "ty")
    def __init__(self, name, kind, items, ty=None):
        self.name, self.kind, self.items, self.ty = name, kind, items, ty
    def __getattr__(self, n):
        if n in Rec.__slots__: raise AttributeError(n)
        return dict(self.items)[n]
    def __getitem__(self, i): return self.items[i][1]
    def dbg(self):
        if self.kind == 'u' or not self.items: return self.name
        if self.kind == 't': return self.name + "(" + ", ".join(dbg(x) for _, x in self.items) + ")"
        return self.name + " { " + ", ".join(f"{k}: {dbg(x)}" for k, x in self.items) + " }"
    def __eq__(self, o): return isinstance(o, Rec) and dbg(self) == dbg(o) and self.ty == o.ty
class Some_:
    def __init__(self, x): self.x = x
class S_:
    """string"""
    def __init__(self, b): self.b = b
def dbg(x):
    if x is True: return "true"
    if x is False: return "false"
    if x is None: return "None"
    if isinstance(x, int): return str(x)
    if isinstance(x, (bytes, list)): return "[" + ", ".join(dbg(y) for y in x) + "]"
    if isinstance(x, Some_): return "Some(" + dbg(x.x) + ")"
    if isinstance(x, S_):
        o = ""
        for c in x.b.decode():
            o += {"\0": "\\0", "\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"', "\\": "\\\\"}.get(c, c if 32 <= ord(c) < 127 else "\\u{%x}" % ord(c))
        return '"' + o + '"'
    return x.dbg()

def rd(bits, p, n):
    if p + n > len(bits): raise Bad("short")
    return (int(bits[p:p + n], 2) if n else 0), p + n
def wn(v, n):
    if v >= 1 << n: raise Bad("value does not fit")
    return format(v, "0%db" % n) if n else ""

# ------------------------------------------------------------------ leaf codecs
def sub(t, env):
    return re.sub(r"\{(\w+)\}", lambda m: env[m.group(1)], t)
class Leaf:
    """a use of a codec in a field; args are Verus expressions over {field}s, py computes them for the oracle"""
    def __init__(s, n, rust, bits=None, bm=0, mx=None, args=(), wargs=None, py=None, targs="", ty=None, dl0=False, wname=None, mnargs=None, dargs=None):
        s.n, s.rust, s.bits, s.args, s.py, s.targs, s.ty = n, rust, bits, list(args), py, targs, ty
        s.wargs = s.args if wargs is None else list(wargs)
        s.dargs = s.args if dargs is None else list(dargs)
        s.mnargs = s.args if mnargs is None else list(mnargs)
        s.bm = bits % 8 if bits is not None else bm
        s.mx = bits if bits is not None else mx
        s.wname = wname or n
        s.exc = ty.exc if ty else False
    def _a(s, xs, env): return "".join(", " + sub(a, env) for a in xs)
    def D(s, S, p, env): return f"d_{s.n}{s.targs}({S}, {p}{s._a(s.dargs, env)})"
    def W(s, o, v, env): return f"w_{s.wname}({o}, {v}{s._a(s.wargs, env)})"
    def OK(s, v, env): return f"ok_{s.n}({v}{s._a(s.args, env)})"
    def MN(s, o, v, env): return f"mn_{s.wname}({o}, {v}{s._a(s.mnargs, env)});"
    def RT(s, o, v, S, env): return f"rt_{s.n}({o}, {v}{s._a(s.args, env)}, {S});"
    def AP(s, z, o, v, env): return f"ap_{s.wname}({z}, {o}, {v}{s._a(s.mnargs, env)});"
    def DL(s, S, p, env): return f"dl_{s.n}{s.targs}({S}, {p}{s._a(s.args, env)});"
    def EXC(s, v): return f"exc_{s.n}({v})" if s.exc else None
    # oracle
    def pd(s, bits, p, f): return s.ty.pd(bits, p, s.py(f) if s.py else ())
    def pe(s, out, v, f): return s.ty.pe(out, v, s.py(f) if s.py else ())
    def gen(s, R, f): return s.ty.gen(R, s.py(f) if s.py else ())
    def pok(s, v, f): return s.ty.pok(v, s.py(f) if s.py else ())

class BoolL(Leaf):
    def __init__(s): super().__init__("bool", "bool", 1)
    def pd(s, b, p, f): x, q = rd(b, p, 1); return bool(x), q
    def pe(s, o, v, f): return o + ("1" if v else "0")
    def gen(s, R, f): return R.random() < 0.5
    def pok(s, v, f): return True
EDGE = [0, 1, 2, 3, 5, 15, 16, 31, 32, 63, 64, 0x7f, 0x80, 0xD7, 0xfe, 0xff]
class UIntL(Leaf):
    def __init__(s, w, n=None):
        n = w if n is None else n
        super().__init__(f"u{w}", f"u{w}", n, args=[str(n)])
        s.k = n
    def pd(s, b, p, f): return rd(b, p, s.k)
    def pe(s, o, v, f): return o + wn(v, s.k)
    def gen(s, R, f):
        r = R.random()
        if r < 0.3: return R.choice([x for x in EDGE if x < 1 << s.k])
        if r < 0.4: return (1 << s.k) - 1 - R.randrange(2)
        return R.randrange(1 << s.k)
    def pok(s, v, f): return v < 1 << s.k
class UIntLE(Leaf):
    def __init__(s, w): super().__init__(f"u{w}le", f"u{w}", w); s.k = w
    def pd(s, b, p, f): x, q = rd(b, p, s.k); return int.from_bytes(x.to_bytes(s.k // 8, "big"), "little"), q
    def pe(s, o, v, f): return o + wn(int.from_bytes(v.to_bytes(s.k // 8, "big"), "little"), s.k)
    def gen(s, R, f): return R.choice([R.randrange(1 << s.k), R.randrange(256), 1 << (s.k - 1), (1 << s.k) - 2])
    def pok(s, v, f): return True
class I8L(Leaf):
    def __init__(s): super().__init__("i8", "i8", 8)
    def pd(s, b, p, f): x, q = rd(b, p, 8); return (x if x < 128 else x - 256), q
    def pe(s, o, v, f): return o + wn(v % 256, 8)
    def gen(s, R, f): return R.choice([0, 1, -1, 127, -128, R.randrange(-128, 128)])
    def pok(s, v, f): return True
def rbytes(R, n):
    k = R.random()
    if k < 0.1: return bytes(n)
    if k < 0.15: return bytes([255] * n)
    return bytes(R.randrange(256) for _ in range(n))
class VecL(Leaf):
    """count: Verus nat expression; py: its value"""
    def __init__(s, count, py, const=None):
        super().__init__("vec", "Vec<u8>", None, 0, None if const is None else 8 * const, args=[count], wargs=[], mnargs=[])
        s.cnt = py
    def pd(s, b, p, f):
        n = s.cnt(f)
        if p + 8 * n > len(b): raise Bad("short")
        return bytes(rd(b, p + 8 * i, 8)[0] for i in range(n)), p + 8 * n
    def pe(s, o, v, f): return o + "".join(wn(x, 8) for x in v)
    def gen(s, R, f): return rbytes(R, s.cnt(f))
    def pok(s, v, f): return len(v) == s.cnt(f)
class CVecL(VecL):
    def __init__(s, cond, count, py):
        Leaf.__init__(s, "cvec", "Vec<u8>", None, 0, None, args=[cond, count], wargs=[], mnargs=[], wname="vec")
        s.cnt = py  # number of bytes expected (0 when the flag is clear)
class ArrL(Leaf):
    def __init__(s, n):
        super().__init__("arr", "Arr<u8, %d>" % n, 8 * n, targs="::<%d>" % n)
        s.k = n
    def pd(s, b, p, f): return VecL("", lambda f: s.k).pd(b, p, f)
    def pe(s, o, v, f): return o + "".join(wn(x, 8) for x in v)
    def gen(s, R, f): return rbytes(R, s.k)
    def pok(s, v, f): return len(v) == s.k
def utf8(R, n):
    """n bytes of valid UTF-8, half of the time with characters of two to four bytes"""
    p, o = R.choice([0, 0, .2, .6, 1]), b""
    while len(o) < n:
        c = R.choice("\u00e9\u0416\u20ac\u4e2d\U0001f600").encode() if R.random() < p else bytes([R.choice(b"abcXYZ019 .-_~\"\\\n\x00")])
        if len(o) + len(c) <= n: o += c
        elif p == 1: p = .9
    return o
class StrL(Leaf):
    def __init__(s, n): super().__init__("str", "Str", 8 * n, args=[str(n)]); s.k = n
    def pd(s, b, p, f):
        x, q = VecL("", lambda f: s.k).pd(b, p, f)
        try: x.decode()
        except UnicodeDecodeError: raise Bad("utf8")
        return S_(x), q
    def pe(s, o, v, f): return o + "".join(wn(x, 8) for x in (v.b + bytes(s.k))[:s.k])
    def gen(s, R, f): return S_(utf8(R, s.k))
    def pok(s, v, f): return len(v.b) == s.k
class OptL:
    """Option<T>, present on the wire iff the flag expression holds"""
    def __init__(s, cond, py, inner):
        s.cond, s.pyc, s.inner = cond, py, inner
        s.rust = f"Option<{inner.rust}>"
        s.bits, s.bm, s.exc = None, 0, inner.exc
        s.mx = inner.mx
        s.ty = inner.ty
        s.n = "opt"
    def D(s, S, p, env): return f"(if {sub(s.cond, env)} {{ match {s.inner.D(S, p, env)} {{ None => None, Some((x, q)) => Some((Some(x), q)) }} }} else {{ Some((None, {p})) }})"
    def W(s, o, v, env): return f"(match {v} {{ None => Some({o}), Some(x) => {s.inner.W(o, 'x', env)} }})"
    def OK(s, v, env): return f"(({v} is Some <==> {sub(s.cond, env)}) && ({v} is Some ==> {s.inner.OK(v + '->0', env)}))"
    def MN(s, o, v, env): return f"match {v} {{ Some(x) => {{ {s.inner.MN(o, 'x', env)} }} None => {{ l_prefix_refl({o}); }} }}"
    def RT(s, o, v, S, env): return f"match {v} {{ Some(x) => {{ {s.inner.RT(o, 'x', S, env)} }} None => {{ }} }}"
    def AP(s, z, o, v, env): return f"match {v} {{ Some(x) => {{ {s.inner.AP(z, o, 'x', env)} }} None => {{ }} }}"
    def DL(s, S, p, env): return f"if {sub(s.cond, env)} {{ {s.inner.DL(S, p, env)} }}"
    def EXC(s, v): return None
    def pd(s, b, p, f):
        if not s.pyc(f): return None, p
        x, q = s.inner.pd(b, p, f)
        return Some_(x), q
    def pe(s, o, v, f): return o if v is None else s.inner.pe(o, v.x, f)
    def gen(s, R, f): return Some_(s.inner.gen(R, f)) if s.pyc(f) else None
    def pok(s, v, f): return (v is not None) == bool(s.pyc(f)) and (v is None or s.inner.pok(v.x, f))
class Pad:
    def __init__(s, n): s.n = s.bits = s.bm = s.mx = n
    exc = False
class SeqL(Leaf):
    """n elements of a fixed-size type: Vec (counted) or array"""
    def __init__(s, ty, n=None, count=None, py=None):
        s.arr = n is not None
        s.k, s.cnt, s.el = n, py, ty
        rust = f"Arr<{ty.path}, {n}>" if s.arr else f"Vec<{ty.path}>"
        super().__init__("seq", rust, ty.bits * n if s.arr else None, 0, None if s.arr else ty.bits * 255, ty=ty)
        s.count = str(n) if s.arr else count
        s.exc = False
    def D(s, S, p, env):
        if s.arr: return f"dec_arr::<{s.el.path}, (), {s.k}>({S}, {p}, ())"
        return f"dec_vec::<{s.el.path}, ()>({S}, {p}, {sub(s.count, env)}, ())"
    def W(s, o, v, env): return f"wr_seq::<{s.el.path}, ()>({o}, {v}@, ())"
    def OK(s, v, env): return f"(oks_{s.el.name}({v}@) && {v}@.len() == {sub(s.count, env)})"
    def MN(s, o, v, env): return f"mns_{s.el.name}({o}, {v}@);"
    def RT(s, o, v, S, env): return f"rts_{s.el.name}({o}, {v}@, {S});"
    def AP(s, z, o, v, env): return f"aps_{s.el.name}({z}, {o}, {v}@);"
    def DL(s, S, p, env): return f"dls_{s.el.name}({S}, {p}, {sub(s.count, env)});"
    def EXC(s, v): return None
    def pd(s, b, p, f):
        xs = []
        for _ in range(s.k if s.arr else s.cnt(f)):
            x, p = s.el.pd(b, p, ())
            xs.append(x)
        return xs, p
    def pe(s, o, v, f):
        for x in v: o = s.el.pe(o, x, ())
        return o
    def gen(s, R, f): return [s.el.gen(R, ()) for _ in range(s.k if s.arr else s.cnt(f))]
    def pok(s, v, f): return len(v) == (s.k if s.arr else s.cnt(f)) and all(s.el.pok(x, ()) for x in v)

B = BoolL
def U8(n=8): return UIntL(8, n)
def U16(n=16): return UIntL(16, n)
def U32(): return UIntL(32)
def U64(): return UIntL(64)

class F:
    def __init__(s, name, c, upd=None, gen=None, dflt=None): s.name, s.c, s.upd, s.gen_, s.dflt = name, c, upd, gen, dflt

# ------------------------------------------------------------------ types
def rpre(n, d):
    d = re.sub(r"\bctx\b", "$1", d).format(s="old($0).s()", p="old($0).p()")
    return f"proof {{ reveal(crate::sp::d_{n}); l_p2(); assert(Self::dec(old($0).s(), old($0).p(), $1) == {d}); }} broadcast use g_pre;"
def wpre(n, w):
    w = re.sub(r"\bctx\b", "$1", w).format(o="old($0).out()")
    return f"proof {{ reveal(crate::sp::w_{n}); l_p2(); assert(self.wr(old($0).out(), $1) == {w}); }} broadcast use g_pre;"

class Ty:
    tail = False
    exc = False
    gens = ""      # generic parameters of the spec functions
    gargs = ""
    ctx = []       # (name, Verus type)
    d_ctx = True   # decoder spec takes the context
    w_ctx = False  # encoder spec takes the context
    keyctx = "()"
    ral = -1
    idkey = None
    def setup(s, name, path):
        s.name, s.path = name, path
        s.mod = "::".join(path.split("::")[1:-1])
        s.tn = path.split("::")[-1]
    def params(s): return "".join(f", {n}: {t}" for n, t in s.ctx)
    def names(s): return "".join(f", {n}" for n, _ in s.ctx)
    def dp(s): return s.params() if s.d_ctx else ""
    def wp(s): return s.params() if s.w_ctx else ""
    def dn(s): return s.names() if s.d_ctx else ""
    def wnm(s): return s.names() if s.w_ctx else ""
    def use(s, *args, py=None, targs="", rust=None):
        args = list(args)
        return Leaf(s.name, rust or s.path, s.bits, s.bm, s.mx, args=args, wargs=args if s.w_ctx else [], dargs=args if s.d_ctx else [], py=py, targs=targs, ty=s)
    # ---- lemma statements
    def st_mn(s):
        e = [f"ok_{s.name}(v{s.names()}) ==> w_{s.name}(o, v{s.wnm()}) is Some"]
        W = f"w_{s.name}(o, v{s.wnm()})"
        e.append(f"{W} is Some ==> prefix(o, {W}->0)")
        if s.bits is not None: e.append(f"{W} is Some ==> ({W}->0).len() == o.len() + {s.bits}")
        else:
            e.append(f"ok_{s.name}(v{s.names()}) && {W} is Some ==> (({W}->0).len() - o.len()) % 8 == {s.bm}")
            if s.mx is not None: e.append(f"ok_{s.name}(v{s.names()}) && {W} is Some ==> ({W}->0).len() <= o.len() + {s.mxe()}")
        return e
    def mxe(s): return str(s.mx)
    def st_dl(s):
        D = f"d_{s.name}{s.gt()}(s, p{s.dn()})"
        e = [f"pos(s, p) && {D} is Some ==> pos(s, ({D}->0).1)"]
        ok = f"ok_{s.name}(({D}->0).0{s.names()})"
        if s.exc: ok = f"(exc_{s.name}(({D}->0).0) || {ok})"
        e.append(f"pos(s, p) && {D} is Some{s.dl_when(D)} ==> {ok}")
        if s.bits is not None: e.append(f"pos(s, p) && {D} is Some ==> ({D}->0).1 == p + {s.bits}")
        else: e.append(f"pos(s, p) && {D} is Some ==> ({D}->0).1 >= p && (({D}->0).1 - p) % 8 == {s.bm}")
        return e + s.dl_more(D)
    def dl_when(s, D): return ""
    def dl_more(s, D): return []
    def gt(s): return f"::{s.gargs}" if s.gargs else ""
    def ty(s): return s.path + s.gargs
    def emit(s):
        n, T, g = s.name, s.ty(), s.gens
        o = []
        o.append(f"#[verifier::opaque]\npub open spec fn d_{n}{g}(s: Seq<bool>, p: int{s.dp()}) -> Option<({T}, int)> {{ {s.d_body()} }}")
        o.append(f"#[verifier::opaque]\npub open spec fn w_{n}{g}(o: Seq<bool>, v: {T}{s.wp()}) -> Option<Seq<bool>> {{ {s.w_body()} }}")
        o.append(f"pub open spec fn ok_{n}{g}(v: {T}{s.params()}) -> bool {{ {s.ok_body()} }}")
        if s.exc: o.append(f"pub open spec fn exc_{n}{g}(v: {T}) -> bool {{ {s.exc_body()} }}")
        o.append(f"pub proof fn mn_{n}{g}(o: Seq<bool>, v: {T}{s.params()}) ensures " + ", ".join(s.st_mn()) + f" {{ reveal(w_{n}); l_p2(); {s.mn_body()} }}")
        o.append(f"pub proof fn rt_{n}{g}(o: Seq<bool>, v: {T}{s.params()}, s: Seq<bool>) requires ok_{n}(v{s.names()}), prefix(w_{n}(o, v{s.wnm()})->0, s){s.tailreq()} ensures d_{n}{s.gt()}(s, o.len() as int{s.dn()}) == Some((v, (w_{n}(o, v{s.wnm()})->0).len() as int)) {{ reveal(w_{n}); reveal(d_{n}); l_p2(); mn_{n}(o, v{s.names()}); {s.rt_body()} }}")
        W0, W1 = f"w_{n}(o, v{s.wnm()})", f"w_{n}(z + o, v{s.wnm()})"
        o.append(f"pub proof fn ap_{n}{g}(z: Seq<bool>, o: Seq<bool>, v: {T}{s.params()}) ensures {W0} is Some <==> {W1} is Some, {W0} is Some ==> {W1} == Some(z + {W0}->0) {{ reveal(w_{n}); l_p2(); {s.ap_body()} }}")
        o.append(f"pub proof fn dl_{n}{g}(s: Seq<bool>, p: int{s.params()}) ensures " + ", ".join(s.st_dl()) + f" {{ reveal(d_{n}); l_p2(); {s.dl_body()} }}")
        if s.seq: o.append(s.seq_lemmas())
        return "\n".join(o)
    seq = False
    tailx = None
    def tailreq(s):
        if not s.tailx: return ""
        e, l, c = s.tailx
        return f", fin_Command(s, (w_{s.name}(o, v)->0).len() as int{e}, {l}, {c})"
    def seq_lemmas(s):
        n, T, b = s.name, s.path, s.bits
        W, D = f"wr_seq::<{T}, ()>(o, v, ())", f"dec_seq::<{T}, ()>(s, p, n, ())"
        pre = f"wr_seq::<{T}, ()>(o, v.drop_last(), ())"
        return f'''pub open spec fn oks_{n}(v: Seq<{T}>) -> bool {{ forall|i: int| 0 <= i < v.len() ==> ok_{n}(#[trigger] v[i]) }}
pub proof fn mns_{n}(o: Seq<bool>, v: Seq<{T}>) ensures oks_{n}(v) ==> {W} is Some, {W} is Some ==> prefix(o, {W}->0) && ({W}->0).len() == o.len() + {b} * v.len() decreases v.len() {{
    reveal_with_fuel(wr_seq, 2);
    if v.len() == 0 {{ l_prefix_refl(o); }} else {{ mns_{n}(o, v.drop_last()); mn_{n}({pre}->0, v.last()); l_pt(o, {pre}->0, {W}->0); if oks_{n}(v) {{ assert(ok_{n}(v[v.len() - 1])); assert(oks_{n}(v.drop_last())); }} }} }}
pub proof fn rts_{n}(o: Seq<bool>, v: Seq<{T}>, s: Seq<bool>) requires oks_{n}(v), prefix({W}->0, s) ensures dec_seq::<{T}, ()>(s, o.len() as int, v.len(), ()) == Some((v, ({W}->0).len() as int)) decreases v.len() {{
    reveal_with_fuel(wr_seq, 2); reveal_with_fuel(dec_seq, 2); mns_{n}(o, v);
    if v.len() == 0 {{ assert(v =~= Seq::empty()); }} else {{ let o1 = {pre}->0; assert(oks_{n}(v.drop_last())); mns_{n}(o, v.drop_last()); mn_{n}(o1, v.last()); l_pt(o1, {W}->0, s); rts_{n}(o, v.drop_last(), s); assert(ok_{n}(v[v.len() - 1])); rt_{n}(o1, v.last(), s); assert(v.drop_last().push(v.last()) =~= v); }} }}
pub proof fn aps_{n}(z: Seq<bool>, o: Seq<bool>, v: Seq<{T}>) ensures {W} is Some <==> wr_seq::<{T}, ()>(z + o, v, ()) is Some, {W} is Some ==> wr_seq::<{T}, ()>(z + o, v, ()) == Some(z + {W}->0) decreases v.len() {{
    reveal_with_fuel(wr_seq, 2);
    if v.len() > 0 {{ aps_{n}(z, o, v.drop_last()); ap_{n}(z, {pre}->0, v.last()); }} }}
pub proof fn dls_{n}(s: Seq<bool>, p: int, n: nat) ensures pos(s, p) && {D} is Some ==> ({D}->0).1 == p + {b} * n && ({D}->0).1 <= s.len() && oks_{n}(({D}->0).0) && ({D}->0).0.len() == n decreases n {{
    reveal_with_fuel(dec_seq, 2);
    if n > 0 {{ dls_{n}(s, p, (n - 1) as nat); let d = dec_seq::<{T}, ()>(s, p, (n - 1) as nat, ()); dl_{n}(s, (d->0).1); }} }}'''
    # ---- contracts of the crate's functions
    def rarg(s):
        if not s.d_ctx: return ""
        if len(s.ctx) == 1: return ", ctx"
        return "".join(f", ctx.{i}" for i in range(len(s.ctx)))
    def warg(s):
        if not s.w_ctx: return ""
        return ", ctx" if len(s.ctx) == 1 else "".join(f", ctx.{i}" for i in range(len(s.ctx)))
    def ctxty(s):
        if not s.ctx: return "()"
        if len(s.ctx) == 1: return s.ctx[0][1]
        return "(" + ", ".join(t for _, t in s.ctx) + ")"
    def contracts(s, C):
        n, m, t = s.name, s.mod, s.tn + s.gargs
        rk, wk = f"{m}|DekuReader<{s.keyctx}>|{t}", f"{m}|DekuWriter<{s.keyctx}>|{t}"
        C.impls[rk] = f"open spec fn ral() -> int {{ {s.ral} }} open spec fn dec(s: Seq<bool>, p: int, ctx: {s.ctxty()}) -> Option<(Self, int)> {{ crate::sp::d_{n}{s.gt()}(s, p{s.rarg()}) }}"
        C.impls[wk] = f"open spec fn wr(&self, out: Seq<bool>, ctx: {s.ctxty()}) -> Option<Seq<bool>> {{ crate::sp::w_{n}(out, *self{s.warg()}) }}"
        C.fn(rk + "::from_reader_with_ctx", pre=rpre(n, f"crate::sp::d_{n}{s.gt()}({{s}}, {{p}}{s.rarg()})") + s.rpre())
        C.fn(wk + "::to_writer", pre=wpre(n, f"crate::sp::w_{n}({{o}}, *self{s.warg()})") + s.wpre())
        s.keys = [rk, wk]
        if not s.ctx: s.container(C, f"crate::sp::d_{n}{s.gt()}(bob(v@), 0)", f"crate::sp::w_{n}(Seq::empty(), v)", s.ral)
        upds = s.upds()
        if upds is not None:
            k = f"{m}|DekuUpdate|{t}"
            C.impls[k] = f"open spec fn upd(self) -> Option<Self> {{ {upds} }}"
            s.keys.append(k)
        s.ids(C)
    def container(s, C, d, w, ral):
        m, t = s.mod, s.tn + s.gargs
        k = f"{m}|TryFrom<&[u8]>|{t}"
        req = "true" if ral <= 0 else "false"
        C.impls[k] = f"open spec fn tf_req(v: &[u8]) -> bool {{ {req} }} open spec fn tf(v: &[u8]) -> Option<Self> {{ match {d} {{ None => None, Some((x, q)) => if q / 8 == v@.len() {{ Some(x) }} else {{ None }} }} }}"
        s.keys.append(k)
        k = f"{m}|TryFrom<{t}>|Vec<u8>"
        C.impls[k] = f"open spec fn tf_req(v: {s.path}{s.gargs}) -> bool {{ true }} open spec fn tf(v: {s.path}{s.gargs}) -> Option<Self> {{ match {w} {{ None => None, Some(o) => Some(mkvec(boz(o))) }} }}"
        s.keys.append(k)
        s.keys += [f"{m}|DekuContainerRead|{t}", f"{m}|DekuContainerWrite|{t}"]
    def rpre(s, d=False): return ""
    def wpre(s): return ""
    def upds(s): return "Some(self)"
    def ids(s, C): pass
    def defaults(s, C, body):
        k = f"{s.mod}|Default|{s.tn}"
        C.impls[k] = f"open spec fn dflt() -> Self {{ {body} }}"
        s.keys.append(k)

def chain_env(fields, ctx, pref):
    env = {n: n for n, _ in ctx}
    for f in fields:
        if isinstance(f, F): env[f.name] = pref(f.name)
    return env

class Struct(Ty):
    def __init__(s, name, path, fields, ctx=(), keyctx="()", d_ctx=True, w_ctx=False, gens="", gargs="", default=True, okx=None, pyok=None, tail=False, opc=False, pygen=None, ctxd=None):
        s.setup(name, path)
        s.fields, s.ctx, s.keyctx, s.d_ctx, s.w_ctx, s.gens, s.gargs = fields, list(ctx), keyctx, d_ctx, w_ctx, gens, gargs
        s.default, s.okx, s.pyok, s.tail, s.opc, s.pygen, s.ctxd = default, okx, pyok, tail, opc, pygen, ctxd
        s.tup = any(isinstance(f, F) and f.name.isdigit() for f in fields)
        cs = [f if isinstance(f, Pad) else f.c for f in fields]
        s.bits = sum(c.bits for c in cs) if all(c.bits is not None for c in cs) else None
        s.bm = sum(c.bm for c in cs) % 8
        s.mx = sum(c.mx for c in cs) if all(c.mx is not None for c in cs) else None
        s.exc = any(c.exc for c in cs)
        off = 0
        for c in cs:
            r = c.ty.ral if getattr(c, "ty", None) else -1
            if r >= 0: s.ral = (r - off) % 8
            off += c.bm
    def lit(s, vals):
        if s.tup: return f"{s.path}({', '.join(vals[f.name] for f in s.fields if isinstance(f, F))})"
        return f"{s.path} {{ " + ", ".join(f"{f.name}: {vals[f.name]}" for f in s.fields if isinstance(f, F)) + " }"
    def denv(s): return chain_env(s.fields, s.ctx, lambda n: f"f_{n}")
    def wenv(s): return chain_env(s.fields, s.ctx, lambda n: f"v.{n}")
    def d_body(s):
        env = s.denv()
        out, end, q = "", "", "p"
        for i, f in enumerate(s.fields):
            if isinstance(f, Pad): out += f"match d_pad(s, {q}, {f.n}) {{ None => None, Some((_, q{i})) => "
            else: out += f"match {f.c.D('s', q, env)} {{ None => None, Some((f_{f.name}, q{i})) => "
            end += " }"
            q = f"q{i}"
        return out + f"Some(({s.lit(env)}, {q}))" + end
    def w_body(s):
        env = s.wenv()
        out, end, q = "", "", "o"
        for i, f in enumerate(s.fields):
            e = f"w_pad({q}, {f.n})" if isinstance(f, Pad) else f.c.W(q, f"v.{f.name}", env)
            if i == len(s.fields) - 1: return out + e + end
            out += f"match {e} {{ None => None, Some(o{i}) => "
            end += " }"
            q = f"o{i}"
        return "Some(o)"
    def ok_body(s):
        env = s.wenv()
        xs = [f.c.OK(f"v.{f.name}", env) for f in s.fields if isinstance(f, F)]
        if s.okx: xs.append(s.okx)
        return " && ".join(xs) or "true"
    def exc_body(s): return " || ".join(x for x in (f.c.EXC(f"v.{f.name}") for f in s.fields if isinstance(f, F)) if x)
    def bc(s): return "broadcast use ax_arr_len; broadcast use ax_arr_mk; " if any(isinstance(f, F) and isinstance(f.c, SeqL) and f.c.arr for f in s.fields) else ""
    def chain(s):
        env, q, steps = s.wenv(), "o", []
        for i, f in enumerate(s.fields):
            steps.append((i, f, q, f"o{i}", f"w_pad({q}, {f.n})" if isinstance(f, Pad) else f.c.W(q, f"v.{f.name}", env)))
            q = f"o{i}"
        return env, steps
    def mn_body(s):
        env, st = s.chain()
        out = s.bc()
        if not st: return "l_prefix_refl(o);"
        for i, f, q, r, e in st:
            out += f"let {r} = {e}->0; " + (f"mn_pad({q}, {f.n}); " if isinstance(f, Pad) else f.c.MN(q, f"v.{f.name}", env) + " ")
            if i > 0: out += f"l_pt(o, {q}, {r}); "
        return out
    def rt_body(s):
        env, st = s.chain()
        out = s.bc()
        for i, f, q, r, e in st:
            out += f"let {r} = {e}->0; " + (f"mn_pad({q}, {f.n}); " if isinstance(f, Pad) else f.c.MN(q, f"v.{f.name}", env) + " ")
        for i, f, q, r, e in reversed(st):
            if i < len(st) - 1: out += f"l_pt({r}, {st[i + 1][3]}, s); "
        for i, f, q, r, e in st:
            out += f"rt_pad({q}, {f.n}, s); " if isinstance(f, Pad) else f.c.RT(q, f"v.{f.name}", "s", env) + " "
        return out
    def ap_body(s):
        env, st = s.chain()
        out = s.bc()
        for i, f, q, r, e in st:
            out += f"ap_pad(z, {q}, {f.n}); " if isinstance(f, Pad) else f.c.AP("z", q, f"v.{f.name}", env) + " "
            out += f"let {r} = {e}->0; "
        return out
    def dl_body(s):
        env = s.denv()
        out, q = s.bc(), "p"
        for i, f in enumerate(s.fields):
            if isinstance(f, Pad): out += f"dl_pad(s, {q}, {f.n}); let q{i} = (d_pad(s, {q}, {f.n})->0).1; "
            else: out += f"let d{i} = {f.c.D('s', q, env)}; {f.c.DL('s', q, env)} let f_{f.name} = (d{i}->0).0; let q{i} = (d{i}->0).1; "
            q = f"q{i}"
        return out
    def al(s):
        """where the field that needs a fixed bit phase starts"""
        env, q, body, off = s.denv(), "p", "", 0
        for i, f in enumerate(s.fields):
            c = f if isinstance(f, Pad) else f.c
            if getattr(c, "ty", None) and c.ty.ral >= 0:
                if i == 0: return ""
                tail, e = f"{q} % 8 == (p + {off}) % 8 && pos(s, {q})", ""
                for l, x in reversed(body): tail = f"match {l} {{ None => true, Some(({x})) => {tail} }}"
                s.has_al = True
                return (f"pub proof fn al_{s.name}{s.gens}(s: Seq<bool>, p: int{s.params()}) ensures pos(s, p) ==> ({tail}) {{ l_p2(); {s.dl_body()} }}\n")
            body = list(body)
            if isinstance(f, Pad): body.append((f"d_pad(s, {q}, {f.n})", f"_, q{i}"))
            else: body.append((f.c.D("s", q, env), f"f_{f.name}, q{i}"))
            q, off = f"q{i}", off + c.bm
        return ""
    has_al = False
    def rpre(s, d=False):
        if not s.has_al: return ""
        a = ", " + s.ctxd if d else ("" if not s.ctx else ", ctx" if len(s.ctx) == 1 else "".join(f", ctx.{i}" for i in range(len(s.ctx))))
        return re.sub(r"\bctx\b", "$1", f"proof {{ crate::sp::al_{s.name}(old($0).s(), old($0).p(){a}); }}")
    def emit(s): return super().emit() + "\n" + s.al()
    def dl_when(s, D):
        return f" && ({D}->0).0.opcode == {s.ctx[0][0]}" if s.opc else ""
    def dl_more(s, D):
        return [f"pos(s, p) && {D} is Some ==> d_OpCode(s, p + 2) is Some && ({D}->0).0.opcode == (d_OpCode(s, p + 2)->0).0", f"pos(s, p) && {D} is Some ==> ({D}->0).1 >= p + 8"] if s.opc else []
    def upds(s):
        if not s.fields: return "Some(self)"
        ups = [f for f in s.fields if isinstance(f, F) and f.upd]
        if not ups: return "Some(self)"
        cond, lits = [], []
        for f in ups:
            c, e = f.upd if isinstance(f.upd, tuple) else (None, f.upd)
            if c: cond.append(c)
            lits.append(f"{f.name}: {e}")
        r = f"Some({s.path} {{ {', '.join(lits)}, ..self }})"
        return f"if {' && '.join(cond)} {{ {r} }} else {{ None }}" if cond else r
    def contracts(s, C):
        super().contracts(C)
        if s.default:
            s.defaults(C, s.lit({f.name: f.dflt or f"<{f.c.rust} as Default>::dflt()" for f in s.fields if isinstance(f, F)}))
        if s.ctxd:
            # ctx_default: the context-free impls behave as the default context
            n, m, t = s.name, s.mod, s.tn
            rk, wk = f"{m}|DekuReader<()>|{t}", f"{m}|DekuWriter<()>|{t}"
            C.impls[rk] = f"open spec fn ral() -> int {{ {s.ral} }} open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(Self, int)> {{ crate::sp::d_{n}(s, p, {s.ctxd}) }}"
            C.impls[wk] = f"open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> {{ crate::sp::w_{n}(out, *self) }}"
            C.fn(rk + "::from_reader_with_ctx", pre=rpre(n, f"crate::sp::d_{n}({{s}}, {{p}}, {s.ctxd})") + s.rpre(True))
            C.fn(wk + "::to_writer", pre=wpre(n, f"crate::sp::w_{n}({{o}}, *self)") + s.wpre())
            s.keys += [rk, wk]
            s.container(C, f"crate::sp::d_{n}(bob(v@), 0, {s.ctxd})", f"crate::sp::w_{n}(Seq::empty(), v)", s.ral)
    # ---- oracle
    def frame(s, a): return {n: x for (n, _), x in zip(s.ctx, a)}
    def mk(s, vals): return Rec(s.tn, "t" if s.tup else "s", [(f.name, vals[f.name]) for f in s.fields if isinstance(f, F)], s.name)
    def pd(s, b, p, a):
        f = s.frame(a)
        for x in s.fields:
            if isinstance(x, Pad): _, p = rd(b, p, x.n)
            else: f[x.name], p = x.c.pd(b, p, f)
        return s.mk(f), p
    def pe(s, o, v, a):
        f = dict(s.frame(a), **dict(v.items))
        for x in s.fields:
            if isinstance(x, Pad): o += "0" * x.n
            else: o = x.c.pe(o, f[x.name], f)
        return o
    def gen(s, R, a):
        f = s.frame(a)
        for x in s.fields:
            if isinstance(x, F): f[x.name] = x.gen_(R, f) if x.gen_ else x.c.gen(R, f)
        if s.pygen: s.pygen(R, f)
        return s.mk(f)
    def pok(s, v, a):
        f = dict(s.frame(a), **dict(v.items))
        return all(x.c.pok(f[x.name], f) for x in s.fields if isinstance(x, F)) and (not s.pyok or s.pyok(f))

class IdEnum(Ty):
    """variants: (name, id or None, payload Leaf or None, kind); kind 'id', 'unit_' (consumes the id, writes nothing; ids or None for the rest),
    'pay_' (any other id, itself read as the payload)"""
    def __init__(s, name, path, nbits, variants, default=None, defpay=None):
        s.setup(name, path)
        s.nb, s.default, s.defpay = nbits, default, defpay
        s.vs = [(v + (None,) * (4 - len(v))) for v in variants]
        s.vs = [(n, i, c, k or "id") for n, i, c, k in s.vs]
        bs = [nbits + (c.bits if c else 0) if (c is None or c.bits is not None) else None for n, i, c, k in s.vs if k == "id"]
        unit_ = any(k == "unit_" for _, _, _, k in s.vs)
        pay_ = [c for _, _, c, k in s.vs if k == "pay_"]
        s.bits = bs[0] if None not in bs and len(set(bs)) == 1 and not unit_ and all(c.bits == bs[0] for c in pay_) else None
        bms = {(nbits + (c.bm if c else 0)) % 8 for n, i, c, k in s.vs if k == "id"}
        s.bms = bms
        s.bm = bms.pop() if len(bms) == 1 else None
        mx = [nbits + (c.mx if c else 0) if (c is None or c.mx is not None) else None for n, i, c, k in s.vs if k == "id"]
        s.mx = None if None in mx else max(mx)
        s.exc = unit_ or any(c.exc for _, _, c, _ in s.vs if c)
        s.unit_ = unit_
        s.ral = 0 if pay_ else -1
        for n, i, c, k in s.vs:
            if c is not None and c.ty and c.ty.ral >= 0: s.ral = (c.ty.ral - nbits) % 8
        s.known = [i for _, i, _, k in s.vs if k == "id"]
    def emit(s):
        o = super().emit()
        if s.unit_ and all(c is None for _, _, c, _ in s.vs):
            out, last = "", ""
            for n, i, c, k in s.vs:
                if k == "unit_" and i is None: last = f"{s.path}::{n}"; continue
                cd = s.cond(i, "x") if k == "id" else " || ".join(s.cond(j, "x") for j in i)
                out += f"if {cd} {{ {s.path}::{n} }} else "
            o += f"\npub open spec fn v_{s.name}(x: u8) -> {s.path} {{ {out}{{ {last} }} }}"
        return o
    def pat(s, n, c, x="x"): return f"{s.path}::{n}({x})" if c else f"{s.path}::{n}"
    def cond(s, i, x): return f"{x} == {i}u8"
    def d_body(s):
        out, last = "", "None"
        for n, i, c, k in s.vs:
            if k == "pay_": last = f"match {c.D('s', 'p', {})} {{ None => None, Some((x, r)) => Some(({s.pat(n, c)}, r)) }}"; continue
            if k == "unit_" and i is None: last = f"Some(({s.pat(n, c)}, q))"; continue
            cd = s.cond(i, "id") if k == "id" else "(" + " || ".join(s.cond(j, "id") for j in i) + ")"
            e = f"match {c.D('s', 'q', {})} {{ None => None, Some((x, r)) => Some(({s.pat(n, c)}, r)) }}" if c else f"Some(({s.pat(n, c)}, q))"
            out += f"if {cd} {{ {e} }} else "
        return f"match d_u8(s, p, {s.nb}) {{ None => None, Some((id, q)) => {out}{{ {last} }} }}"
    def w_body(s):
        out = ""
        for n, i, c, k in s.vs:
            if k == "pay_": e = c.W("o", "x", {})
            elif k == "unit_": e = "Some(o)"
            elif c: e = f"match wn(o, {i}, {s.nb}) {{ None => None, Some(o1) => {c.W('o1', 'x', {})} }}"
            else: e = f"wn(o, {i}, {s.nb})"
            out += f"{s.pat(n, c)} => {e}, "
        return f"match v {{ {out} }}"
    def ok_body(s):
        out = ""
        for n, i, c, k in s.vs:
            if k == "pay_": e = " && ".join([c.OK("x", {})] + [f"x != {j}" for j in s.known])
            elif k == "unit_": e = "false"
            else: e = c.OK("x", {}) if c else "true"
            out += f"{s.pat(n, c)} => {e}, "
        return f"match v {{ {out} }}"
    def exc_body(s):
        out = ""
        for n, i, c, k in s.vs:
            if k == "unit_": e = "true"
            else: e = (c.EXC("x") if c else None) or "false"
            out += f"{s.pat(n, c)} => {e}, "
        return f"match v {{ {out} }}"
    def arms(s, fn):
        return "match v { " + " ".join(f"{s.pat(n, c)} => {{ {fn(n, i, c, k)} }}" for n, i, c, k in s.vs) + " }"
    def mn_body(s):
        def fn(n, i, c, k):
            if k == "pay_": return c.MN("o", "x", {})
            if k == "unit_": return "l_prefix_refl(o);"
            e = f"mn_u8(o, {i}u8, {s.nb}); "
            if c: e += f"let o1 = wn(o, {i}, {s.nb})->0; {c.MN('o1', 'x', {})} l_pt(o, o1, {c.W('o1', 'x', {})}->0);"
            return e
        return s.arms(fn)
    def rt_body(s):
        def fn(n, i, c, k):
            if k == "pay_": return c.RT("o", "x", "s", {})
            if k == "unit_": return ""
            e = ""
            if c: e += f"let o1 = wn(o, {i}, {s.nb})->0; {c.MN('o1', 'x', {})} l_pt(o1, {c.W('o1', 'x', {})}->0, s); {c.RT('o1', 'x', 's', {})}"
            return e + f"rt_u8(o, {i}u8, {s.nb}, s); "
        return s.arms(fn)
    def ap_body(s):
        def fn(n, i, c, k):
            if k == "pay_": return c.AP("z", "o", "x", {})
            if k == "unit_": return ""
            e = f"ap_u8(z, o, {i}u8, {s.nb}); "
            if c: e += f"let o1 = wn(o, {i}, {s.nb})->0; {c.AP('z', 'o1', 'x', {})}"
            return e
        return s.arms(fn)
    def dl_body(s):
        out = f"dl_u8(s, p, {s.nb}); let id = (d_u8(s, p, {s.nb})->0).0; let q = (d_u8(s, p, {s.nb})->0).1; "
        for n, i, c, k in s.vs:
            if k == "pay_": out += c.DL("s", "p", {}) + " "
            elif c: out += f"if {s.cond(i, 'id')} {{ {c.DL('s', 'q', {})} }} "
        return out
    def contracts(s, C):
        super().contracts(C)
        if s.default: s.defaults(C, s.pat(s.default, s.defpay, s.defpay) if s.defpay else f"{s.path}::{s.default}")
    def ids(s, C):
        k = f"{s.mod}|DekuEnumExt<u8>|{s.tn}"
        arms = "".join(f"{s.pat(n, c, '_')} => {'Some(%du8)' % i if kd == 'id' and not s.disc else 'None'}, " for n, i, c, kd in s.vs)
        C.impls[k] = f"open spec fn id_spec(&self) -> Option<u8> {{ match *self {{ {arms} }} }}"
        s.keys.append(k)
    disc = False
    def find(s, x):
        for n, i, c, k in s.vs:
            if (k == "id" and i == x) or (k == "unit_" and i is not None and x in i): return n, i, c, k
        for n, i, c, k in s.vs:
            if k == "pay_" or (k == "unit_" and i is None): return n, i, c, k
        raise Bad("id")
    def mk(s, n, c, x=None): return Rec(n, "t" if c else "u", [("0", x)] if c else [], s.name)
    def pd(s, b, p, a):
        x, q = rd(b, p, s.nb)
        n, i, c, k = s.find(x)
        if k == "pay_":
            v, q = c.pd(b, p, {})
            return s.mk(n, c, v), q
        if c:
            v, q = c.pd(b, q, {})
            return s.mk(n, c, v), q
        return s.mk(n, None), q
    def var(s, v): return next(t for t in s.vs if t[0] == v.name)
    def pe(s, o, v, a):
        n, i, c, k = s.var(v)
        if k == "unit_": return o
        if k == "pay_": return c.pe(o, v[0], {})
        o += wn(i, s.nb)
        return c.pe(o, v[0], {}) if c else o
    def gen(s, R, a):
        vs = [t for t in s.vs if t[3] != "unit_"]
        n, i, c, k = R.choice(vs)
        if k == "pay_":
            while True:
                x = c.gen(R, {})
                if x not in s.known: return s.mk(n, c, x)
        return s.mk(n, c, c.gen(R, {}) if c else None)
    def pok(s, v, a):
        n, i, c, k = s.var(v)
        if k == "unit_": return False
        if k == "pay_": return v[0] not in s.known
        return c.pok(v[0], {}) if c else True

class CtxEnum(Ty):
    """variant chosen by a context value; nothing of it on the wire.
    arms: (variant, id value (Verus), python test on id, payload or None); id None: every other value"""
    def __init__(s, name, path, ctx, keyctx, arms, default=None, defpay=None, idty=None, ctxd=None, pyctx=None, noid=()):
        s.setup(name, path)
        s.ctx, s.keyctx, s.av, s.default, s.defpay, s.ctxd, s.pyctx, s.noid = list(ctx), keyctx, arms, default, defpay, ctxd, pyctx, noid
        cs = [c for _, _, _, c in arms]
        bs = {0 if c is None else c.bits for c in cs}
        s.bits = bs.pop() if len(bs) == 1 else None
        bms = {0 if c is None else c.bm for c in cs}
        assert len(bms) == 1, name
        s.bm = bms.pop()
        fin = [0 if c is None else c.mx for c in cs if c is None or c.mx is not None]
        s.mxc = max(fin or [0])
        s.inf = any(c is not None and c.mx is None for c in cs)
        s.mx = None if s.inf else s.mxc
        s.exc = any(c.exc for c in cs if c)
        s.idn, s.idt = s.ctx[0]
        s.idkey = s.keyctx.strip("()").split(",")[0]
        for c in cs: assert not (c is not None and c.ty and c.ty.ral >= 0)
    def mxe(s): return str(s.mx)
    def st_mn(s):
        e = super().st_mn()
        if s.inf and len(s.ctx) > 1:
            W = f"w_{s.name}(o, v)"
            L = s.ctx[1][0]
            e.append(f"ok_{s.name}(v{s.names()}) && {W} is Some ==> ({W}->0).len() <= o.len() + (if 8 * {L} > {s.mxc} {{ 8 * {L} }} else {{ {s.mxc} }})")
        return e
    def emit(s):
        o = super().emit()
        if len(s.ctx) > 1:
            n, l = s.name, s.ctx[1][0]
            N = f"boz(w_{n}(Seq::empty(), v)->0).len()"
            o += f"\npub proof fn okn_{n}(v: {s.ty()}{s.params()}) ensures ok_{n}(v{s.names()}) && {l} < 0x4000_0000 ==> {N} < 0x4000_0000 && ok_{n}(v, {s.idn}, {N} as u32) {{ if ok_{n}(v{s.names()}) {{ mn_{n}(Seq::empty(), v{s.names()}); reveal(w_{n}); match v {{ {s.path}::Other(x) => {{ mn_vec(Seq::empty(), x); }} _ => {{ }} }} }} }}"
        return o
    def env(s): return {n: n for n, _ in s.ctx}
    def test(s, i): return f"{s.idn} == {i}"
    def pat(s, n, c, x="x"): return f"{s.path}::{n}({x})" if c else f"{s.path}::{n}"
    def d_body(s):
        out, last = "", "None"
        for n, i, t, c in s.av:
            e = f"match {c.D('s', 'p', s.env())} {{ None => None, Some((x, q)) => Some(({s.pat(n, c)}, q)) }}" if c else f"Some(({s.pat(n, c)}, p))"
            if i is None: last = e
            else: out += f"if {s.test(i)} {{ {e} }} else "
        return out + f"{{ {last} }}"
    def w_body(s):
        return "match v { " + "".join(f"{s.pat(n, c)} => {c.W('o', 'x', s.env()) if c else 'Some(o)'}, " for n, i, t, c in s.av) + "}"
    def ok_body(s):
        ks = [s.test(i) for _, i, _, _ in s.av if i is not None]
        def t(i): return s.test(i) if i is not None else "!(" + " || ".join(ks) + ")"
        return "match v { " + "".join(f"{s.pat(n, c)} => {t(i)}{' && ' + c.OK('x', s.env()) if c else ''}, " for n, i, _, c in s.av) + "}"
    def exc_body(s):
        return "match v { " + "".join(f"{s.pat(n, c)} => {(c.EXC('x') if c else None) or 'false'}, " for n, i, _, c in s.av) + "}"
    def arms(s, fn): return "match v { " + " ".join(f"{s.pat(n, c)} => {{ {fn(c)} }}" for n, i, t, c in s.av) + " }"
    def mn_body(s): return s.arms(lambda c: c.MN("o", "x", s.env()) if c else "l_prefix_refl(o);")
    def rt_body(s): return s.arms(lambda c: c.RT("o", "x", "s", s.env()) if c else "")
    def ap_body(s): return s.arms(lambda c: c.AP("z", "o", "x", s.env()) if c else "")
    def dl_body(s): return " ".join((f"if {s.test(i)} {{ {c.DL('s', 'p', s.env())} }}" if i is not None else c.DL("s", "p", s.env())) for n, i, t, c in s.av if c)
    def contracts(s, C):
        super().contracts(C)
        if s.default: s.defaults(C, s.pat(s.default, s.defpay, s.defpay) if s.defpay else f"{s.path}::{s.default}")
        if s.ctxd:
            n, m, t = s.name, s.mod, s.tn
            rk, wk = f"{m}|DekuReader<()>|{t}", f"{m}|DekuWriter<()>|{t}"
            C.impls[rk] = f"open spec fn ral() -> int {{ -1 }} open spec fn dec(s: Seq<bool>, p: int, ctx: ()) -> Option<(Self, int)> {{ crate::sp::d_{n}(s, p, {s.ctxd}) }}"
            C.impls[wk] = f"open spec fn wr(&self, out: Seq<bool>, ctx: ()) -> Option<Seq<bool>> {{ crate::sp::w_{n}(out, *self) }}"
            C.fn(rk + "::from_reader_with_ctx", pre=rpre(n, f"crate::sp::d_{n}({{s}}, {{p}}, {s.ctxd})") + s.rpre(True))
            C.fn(wk + "::to_writer", pre=wpre(n, f"crate::sp::w_{n}({{o}}, *self)") + s.wpre())
            s.keys += [rk, wk]
            s.container(C, f"crate::sp::d_{n}(bob(v@), 0, {s.ctxd})", f"crate::sp::w_{n}(Seq::empty(), v)", -1)
    def ids(s, C):
        k = f"{s.mod}|DekuEnumExt<{s.idkey}>|{s.tn}"
        arms = "".join(f"{s.pat(n, c, '_')} => {'Some(%s)' % i if i is not None else 'None'}, " for n, i, _, c in s.av)
        C.impls[k] = f"open spec fn id_spec(&self) -> Option<{s.idt}> {{ match *self {{ {arms} }} }}"
        s.keys.append(k)
    def mk(s, n, c, x=None): return Rec(n, "t" if c else "u", [("0", x)] if c else [], s.name)
    def arm(s, a):
        for t in s.av:
            if t[1] is not None and t[2](a[0]): return t
        for t in s.av:
            if t[1] is None: return t
        raise Bad("ctx")
    def fr(s, a): return {n: x for (n, _), x in zip(s.ctx, a)}
    def pd(s, b, p, a):
        n, i, t, c = s.arm(a)
        if not c: return s.mk(n, None), p
        x, p = c.pd(b, p, s.fr(a))
        return s.mk(n, c, x), p
    def pe(s, o, v, a):
        c = next(t for t in s.av if t[0] == v.name)[3]
        return c.pe(o, v[0], s.fr(a)) if c else o
    def gen(s, R, a):
        n, i, t, c = s.arm(a)
        return s.mk(n, c, c.gen(R, s.fr(a)) if c else None)
    def pok(s, v, a):
        try: n, i, t, c = s.arm(a)
        except Bad: return False
        return n == v.name and (c is None or c.pok(v[0], s.fr(a)))

class Contracts:
    def __init__(s): s.impls, s.fns = {}, {}
    def fn(s, key, **kw):
        if "loops" in kw: kw.setdefault("attrs", "#[verifier::loop_isolation(false)]")
        s.fns.setdefault(key, {}).update(kw)
