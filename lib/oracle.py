"""Looks for a concrete input on which the real code disagrees with the wire description (bounded search)."""
import random, time, json, os, re
import codec, schema, driver
from codec import Rec, Bad, Some_, S_, dbg, F
from driver import NoTok, codec_hex
from props import kind_of
HERE = os.path.dirname(os.path.abspath(__file__))
KIND = {"P": "R", "E": "R", "D": "R", "V": "W", "W": "W", "C": "C", "R": "C", "T": "C", "B": "C", "X": "C", "U": "U", "I": "I", "H": "H", "Z": "H"}

CTXD = {"Command": "0", "TransportFrame": "0", "NetworkFrame": "0", "Status": "Action"}

def bits_of(b): return "".join(format(x, "08b") for x in b)

class Oracle:
    def __init__(s, g, seed=1):
        s.g, s.T, s.R = g, g.T, random.Random(seed)
        s.d = driver.Dr(g)
        s.leaf = {"Length": schema.LenL(), "VarInt": schema.VarL()}
        try: s.defaults = json.load(open(HERE + "/../spec/defaults.json"))[g.variant]
        except Exception: s.defaults = {}
        s.ctxty = {}
        for t in s.T.values():
            for n, ty in t.ctx:
                if ty not in ("u8", "u32"): s.ctxty[ty] = next(x for x in s.T.values() if getattr(x, "path", None) == ty and not x.name.startswith("Lp"))
    # ------------------------------------------------------------ contexts
    def ctx(s, t):
        toks, vals = [], []
        for n, ty in t.ctx:
            if ty in ("u8", "u32"):
                x = s.R.choice([0, 1, 2, 3, 5, 12, 17, 45, 64]) if ty == "u32" else s.R.choice([0xD7, 0xD7, 0, 1, 2, 3, s.R.randrange(256)])
                toks.append(x); vals.append(x)
            else:
                c = s.ctxty[ty]
                nb = c.bits or c.nb
                while True:
                    x = s.R.choice(c.known) if isinstance(c, codec.IdEnum) and c.known and s.R.random() < 0.8 else s.R.randrange(1 << nb)
                    try: v, _ = c.pd(format(x, "0%db" % nb) + "0" * 64, 0, ()); break
                    except Bad: pass
                toks.append(x); vals.append(v)
        return toks, tuple(vals)
    def pd(s, n, b, p, a): return s.leaf[n].pd(b, p, {}) if n in s.leaf else s.T[n].pd(b, p, a)
    def pe(s, n, o, v, a): return s.leaf[n].pe(o, v, {}) if n in s.leaf else s.T[n].pe(o, v, a)
    def gen(s, n, a): return s.leaf[n].gen(s.R, {}) if n in s.leaf else s.T[n].gen(s.R, a)
    # ------------------------------------------------------------ expectations
    def ident(s, t, v):
        if isinstance(t, codec.IdEnum):
            _, i, c, k = t.var(v)
            return str(i) if k == "id" and not t.disc else "!"
        if isinstance(t, codec.CtxEnum):
            i = next(x for x in t.av if x[0] == v.name)[1]
            if i is None: return "!"
            return str(int(i[:-2], 16)) if i.startswith("0x") else i.split("::")[-1]
        if isinstance(t, schema.ActionTy): return "OpCode(%d)" % next(k for n, k, _ in t.acts if n == v.name)
    def upd(s, t, v):
        """value after update, or None when refused"""
        d = dict(v.items)
        L = lambda n: Rec("Length", "t", [("0", n)], "Length")
        n = t.name
        if n == "Addressee":
            d["address_type"] = s.idrec("AddressType", d["address"].name); d["nls_method"] = s.idrec("NlsMethod", d["nls_state"].name)
        elif n == "PhyStatus":
            if len(d["channel_status"]) > 255: return None
            d["channel_status_list_length"] = len(d["channel_status"])
        elif n in ("ComparisonWithZero", "ComparisonWithValue", "ComparisonWithOtherFile", "BitmapRangeComparison", "StringTokenSearch"):
            d["mask_present"] = len(d["mask"]) > 0
            f = {f.name: f.upd for f in t.fields if isinstance(f, F)}
            if f.get("length"): d["length"] = L(len(d["value" if "value" in f["length"] else "mask"]))
        elif n == "IndirectForward":
            d["header"] = Rec("IndirectForwardHeader", "s", [("overloaded", d["configuration"] is not None), ("response", d["header"].response)], "IndirectForwardHeader")
        else:
            for f in getattr(t, "fields", ()):
                if isinstance(f, F) and f.upd:
                    if f.name == "status_type": d[f.name] = s.idrec({"StatusOperand": "StatusType", "TxStatusOperation": "TxStatusType"}[n], d["status"].name)
                    elif "id_spec" in f.upd: return "?"
                    else: return "?"
        return Rec(v.name, v.kind, [(k, d[k]) for k, _ in v.items], v.ty)
    def idrec(s, n, name): return Rec(name, "u", [], n)
    def cok(s, n, a):
        """the byte-level entry points take no context: they stand for its default"""
        if not s.T[n].ctx or n == "File": return True
        d = CTXD.get(n)
        return d is not None and dbg(a[0]) == d
    def expect_dec(s, n, b, skip, a):
        t, bits, e = s.T[n], bits_of(b), {}
        try:
            if skip > len(bits): raise Bad("skip")
            v, q = s.pd(n, bits, skip, a)
            e["D"] = f"D{q}\t{dbg(v)}"
        except Bad: e["D"] = "E"; v = None
        if v is not None:
            s.expect_val(n, v, a, 0, e, False)
            if (s.d.container(n) or n in ("Command", "File")) and s.cok(n, a):
                e["C"] = f"C{b[q // 8:].hex()} {q % 8} ="
                if n != "File":
                    e["R"] = f"R{q} ="
                    if skip == 0: e["T"] = "T=" if q // 8 == len(b) else "TE"
        elif (s.d.container(n) or n in ("Command", "File")) and s.cok(n, a):
            e["C"] = "CE"
            if n != "File":
                e["R"] = "RE"
                if skip == 0: e["T"] = "TE"
        return e
    def expect_val(s, n, v, a, skip, e, wc=True):
        t = s.T[n]
        try: h = codec_hex(s.pe(n, "1" * skip, v, a)).hex(); h0 = codec_hex(s.pe(n, "", v, a)).hex()
        except Bad: h = h0 = "E"
        e["W"] = "W" + h
        if wc and (s.d.container(n) or n == "Command") and s.cok(n, a): e["B"] = "B" + h0; e["X"] = "X" + h0
        if s.d.has(n, "|DekuUpdate|") and n not in s.leaf:
            u = s.upd(t, v) if isinstance(t, codec.Struct) else v
            if u != "?": e["U"] = "UE" if u is None else "U" + dbg(u)
        if s.d.has(n, "|DekuEnumExt<"): e["I"] = "I" + s.ident(t, v)
    def dec_case(s, n, b, skip, ct, a):
        e = s.expect_dec(n, b, skip, a)
        return (" ".join(map(str, ["D", n, skip, len(b), *b, *ct])), e, n)
    def val_case(s, n, v, skip, ct, a):
        t = s.T[n]
        toks = s.d.leaf(s.leaf[n], v, None) if n in s.leaf else s.d.ty(t, v)
        e = {"V": "V\t" + dbg(v)}
        s.expect_val(n, v, a, skip, e)
        return (" ".join(map(str, ["V", n, skip, *ct, *toks])), e, n)
    # ------------------------------------------------------------ mutation of values
    def mut(s, t, v):
        R = s.R
        if isinstance(t, codec.Struct):
            fs = [f for f in t.fields if isinstance(f, F)]
            if not fs: return v
            f = R.choice(fs); d = dict(v.items)
            d[f.name] = s.mutl(f.c, d[f.name], d)
            return Rec(v.name, v.kind, [(k, d[k]) for k, _ in v.items], v.ty)
        if isinstance(t, schema.ActionTy):
            k, x = next((k, x) for n, k, x in t.acts if n == v.name)
            return Rec(v.name, "t", [("0", s.mut(x, v[0]))], "Action")
        if isinstance(t, schema.CommandTy):
            a = list(v.actions)
            if a and R.random() < 0.6: i = R.randrange(len(a)); a[i] = s.mut(s.T["Action"], a[i])
            else: a.insert(R.randrange(len(a) + 1), t.A.gen(R, ()))
            return Rec("Command", "s", [("actions", a)], "Command")
        if isinstance(t, codec.IdEnum):
            n, i, c, k = R.choice(t.vs) if R.random() < 0.5 else t.var(v)
            if n == v.name and c: return t.mk(n, c, s.mutl(c, v[0], {}))
            return t.mk(n, c, c.gen(R, {}) if c else None)
        if isinstance(t, codec.CtxEnum):
            n, i, _, c = next(x for x in t.av if x[0] == v.name)
            if R.random() < 0.5 and c: return t.mk(n, c, s.mutl(c, v[0], {}))
            n, i, _, c = R.choice(t.av)
            ct, a = s.ctx(t)
            return t.mk(n, c, c.gen(R, t.fr(a)) if c else None)
        if isinstance(t, schema.Lp): return s.mut(t.inner, v)
        return v
    def mutl(s, c, v, d):
        R, k = s.R, type(c).__name__
        if k == "BoolL": return not v
        if k in ("UIntL", "UIntLE"):
            w = int(re.sub(r"\D", "", c.rust)); return R.choice([0, 1, 1 << (c.k - 1), (1 << c.k) - 1, R.randrange(1 << c.k), R.randrange(1 << w), (1 << w) - 1, min(1 << c.k, (1 << w) - 1)])
        if k == "I8L": return R.randrange(-128, 128)
        if k in ("VecL", "CVecL"): return bytes(R.randrange(256) for _ in range(R.choice([0, 1, len(v) + 1, max(0, len(v) - 1), 64])))
        if k == "ArrL": return bytes(R.randrange(256) for _ in v)
        if k == "StrL": return S_(codec.utf8(R, R.choice([0, 1, c.k - 1, c.k, c.k + 1, c.k + 3])))
        if k == "OptL": return None if v is not None and R.random() < .5 else Some_(c.inner.gen(R, d))
        if k == "SeqL":
            x = list(v)
            if c.arr or (x and R.random() < .5):
                if x: i = R.randrange(len(x)); x[i] = s.mut(c.el, x[i])
            else: x = x + [c.el.gen(R, ())] if R.random() < .6 else x[:-1]
            return x
        if k == "LenL": return c.gen(R, d)
        if k == "VarL": return c.mk(R.randrange(600000) if R.random() < .8 else R.randrange(1 << 32), R.random() < .5)
        if k == "OpcL": return Rec("OpCode", "t", [("0", R.randrange(64))], "OpCode")
        return s.mut(c.ty, v)
    # ------------------------------------------------------------ streams of cases
    def cases(s, n, count):
        """mixed cases of one type"""
        t, R = s.T[n], s.R
        fixed = getattr(t, "bits", None)
        if n in s.leaf: fixed = {"VarInt": 8}.get(n)
        phases = [0] if t.ral >= 0 or n in s.leaf and False else [0, 0, 0, 1, 3, 7]
        if t.ral > 0: phases = [t.ral]
        if fixed is not None and 0 < fixed <= 8 and not t.ctx:
            for x in range(256): yield lambda x=x: s.dec_case(n, bytes([x]), 0, [], ())
        for i in range(count):
            k = R.random()
            try:
                ct, a = s.ctx(t)
                skip = R.choice(phases)
                if k < 0.45:
                    v = s.gen(n, a)
                    b = codec_hex(s.pe(n, "1" * skip, v, a))
                    if len(b) > 4000: continue
                    m = R.random()
                    if m < .35: pass
                    elif m < .5: b = b + bytes(R.randrange(256) for _ in range(R.choice([1, 2, 9])))
                    elif m < .62: b = b[:R.randrange(len(b) + 1)]
                    elif b:
                        b = bytearray(b)
                        for _ in range(R.choice([1, 1, 2])): b[R.randrange(min(len(b), R.choice([2, 4, 1000])))] ^= 1 << R.randrange(8)
                        b = bytes(b)
                elif k < 0.6: b = bytes(R.choice([0, 255, R.randrange(256)]) for _ in range(R.randrange(0, 40)))
                else:
                    v = s.gen(n, a)
                    for _ in range(R.choice([0, 1, 1, 2])):
                        if n not in s.leaf: v = s.mut(t, v)
                    if n in s.leaf and R.random() < .3: v = s.mutl(s.leaf[n], v, {})
                    yield lambda v=v, skip=skip, ct=ct, a=a: s.val_case(n, v, R.choice([0, 0, 0, 1, 5]) if t.ral <= 0 else skip, ct, a)
                    continue
                if "Action" == n and R.random() < .3 and b: b = bytes([i & 255]) + b[1:]
                yield lambda b=b, skip=skip, ct=ct, a=a: s.dec_case(n, b, skip, ct, a)
            except (Bad, NoTok, AttributeError, KeyError, TypeError, OverflowError): continue
    def H(s, name, toks, exp, ty): return (" ".join(map(str, ["H", name, *toks])), {"H": exp}, ty)
    def hand(s, want, count):
        """cases of the hand-written functions; want(type)"""
        R, T, d = s.R, s.T, s.d
        g = lambda n: s.gen(n, ())
        tk = lambda n, v: d.leaf(s.leaf[n], v, None) if n in s.leaf else d.ty(T[n], v)
        def B():
            n = R.choice([255, 256, 257, 0x3fff, 0x4000, 0x4001]) if R.random() < .02 else R.choice([0, 0, 1, 2, 5, 63, 64])
            return R.randbytes(n)
        bt = lambda b: [len(b), *b]
        rec = lambda n, vals: dbg(Rec(T[n].tn, "s", vals, n))
        L = lambda x: Rec("Length", "t", [("0", x)], "Length")
        O = lambda x: Rec("OpCode", "t", [("0", x)], "OpCode")
        out = []
        def add(n, f):
            if want(n): out.append((n, f))
        def r_len():
            x = R.choice([0, 63, 64, 0x3fff, 0x4000, 0x3fffff, 0x400000, 0x3fffffff, 0x40000000, 0xffffffff, R.randrange(1 << 32), R.randrange(1 << 14)])
            if R.random() < .3: x = R.choice([1 << 32, (1 << 32) + 5, (1 << 63) | 7, (1 << 64) - 1, R.randrange(1 << 64)])
            y = x % (1 << 32)
            return s.H("len", [x], f"Length({y}) Length({min(x, 0xffffffff)}) {y} {y}", "Length")
        add("Length", r_len)
        def vi(x, c):
            vl = s.leaf["VarInt"]
            try: e = schema.vi_e(x); m = x // 4 ** e + (1 if c and x % 4 ** e else 0); cp = f"Some(({e}, {m}))"; ok = "true"; nw = "Some(%s)" % dbg(vl.mk(x, c))
            except Bad: cp, ok, nw = "None", "false", "None"
            return s.H("vi", [x, int(c)], f"{cp} {ok} {nw} {dbg(vl.mk(x, c))} {dbg(vl.mk(x, False))} {x}", "VarInt")
        s.vi = vi
        add("VarInt", lambda: vi(R.choice([R.randrange(600000), R.randrange(2000), 31 * 4 ** R.randrange(8) + R.randrange(3), R.randrange(1 << 32)]), R.random() < .5))
        def vid():
            e, m = R.choice([R.randrange(8), R.randrange(256)]), R.choice([R.randrange(32), R.randrange(256)])
            return s.H("vid", [e, m], "Some(%d)" % (4 ** e * m) if e < 8 and m < 32 else "None", "VarInt")
        add("VarInt", vid)
        def iserr(): x = R.randrange(256); return s.H("iserr", [x], "true" if x >= 128 else "false", "StatusCode")
        add("StatusCode", iserr)
        for h, n, k in (("itype", "InterfaceType", "itou8"), ("fid", "FileId", "ftou8")):
            def f(h=h, n=n):
                x = R.randrange(256); v, _ = T[n].pd(format(x, "08b"), 0, ())
                return s.H(h, [x], f"Some({dbg(v)})", n)
            add(n, f)
            def f2(k=k, n=n):
                v = g(n); return s.H(k, tk(n, v), s.ident(T[n], v), n)
            add(n, f2)
        def no(): x = R.randrange(256); return s.H("no_offset", [x], rec("FileOffset", [("file_id", x), ("offset", L(0))]), "FileOffset")
        add("FileOffset", no)
        def ah(): a, b = R.random() < .5, R.random() < .5; return s.H("ah", [int(a), int(b)], rec("ActionHeader", [("group", a), ("response", b)]), "ActionHeader")
        add("ActionHeader", ah)
        def ifh(): a, b = R.random() < .5, R.random() < .5; return s.H("ifh", [int(a), int(b)], rec("IndirectForwardHeader", [("overloaded", a), ("response", b)]), "IndirectForwardHeader")
        add("IndirectForwardHeader", ifh)
        def fl(): ct, a = s.ctx(T["File"]); return s.gen("File", a)
        def fd():
            a, b, c, o = g("ActionHeader"), g("FileOffset"), fl(), O(R.randrange(64))
            return s.H("fd", tk("ActionHeader", a) + tk("FileOffset", b) + tk("File", c) + [o[0]], rec("FileData", [("header", a), ("opcode", o), ("offset", b), ("data", c)]), "FileData")
        add("FileData", fd)
        def fw():
            r, c = R.random() < .5, g("InterfaceConfiguration")
            h = Rec("ForwardHeader", "s", [("response", r)], "ForwardHeader")
            return s.H("fw", [int(r)] + tk("InterfaceConfiguration", c), rec("Forward", [("header", h), ("opcode", O(50)), ("configuration", c)]), "Forward")
        add("Forward", fw)
        def ifw():
            r, c = R.random() < .5, None if R.random() < .4 else g("IndirectInterface")
            h = Rec("IndirectForwardHeader", "s", [("overloaded", c is not None), ("response", r)], "IndirectForwardHeader")
            return s.H("ifw", [int(r)] + ([0] if c is None else [1] + tk("IndirectInterface", c)), rec("IndirectForward", [("header", h), ("opcode", O(51)), ("configuration", None if c is None else Some_(c))]), "IndirectForward")
        add("IndirectForward", ifw)
        def q(h, n, mk):
            def f():
                toks, vals = mk(); order = [x.name for x in T[n].fields if isinstance(x, F)]
                return s.H(h, toks, rec(n, [(k, vals[k]) for k in order]), n)
            add(n, f)
        def cwz(): p, m, f = g("ArithmeticQueryParams"), B(), g("FileOffset"); return tk("ArithmeticQueryParams", p) + bt(m) + tk("FileOffset", f), dict(mask_present=len(m) > 0, params=p, length=L(len(m)), mask=m, file=f)
        q("cwz", "ComparisonWithZero", cwz)
        def cwv(): p, m, v, f = g("ArithmeticQueryParams"), B(), B(), g("FileOffset"); return tk("ArithmeticQueryParams", p) + bt(m) + bt(v) + tk("FileOffset", f), dict(mask_present=len(m) > 0, params=p, length=L(len(v)), mask=m, value=v, file=f)
        q("cwv", "ComparisonWithValue", cwv)
        def cwo(): p, m, f, e = g("ArithmeticQueryParams"), B(), g("FileOffset"), g("FileOffset"); return tk("ArithmeticQueryParams", p) + bt(m) + tk("FileOffset", f) + tk("FileOffset", e), dict(mask_present=len(m) > 0, params=p, length=L(len(m)), mask=m, file1=f, file2=e)
        q("cwo", "ComparisonWithOtherFile", cwo)
        def brc():
            p, m, f, a, b = g("RangeQueryParams"), B(), g("FileOffset"), R.randrange(1 << 30), R.randrange(1 << 30)
            return tk("RangeQueryParams", p) + [a, b] + bt(m) + tk("FileOffset", f), dict(mask_present=len(m) > 0, params=p, length=L(len(m)), start=L(a), stop=L(b), mask=m, file=f)
        q("brc", "BitmapRangeComparison", brc)
        def sts(): e, m, v, f = R.randrange(256), B(), B(), g("FileOffset"); return [e] + bt(m) + bt(v) + tk("FileOffset", f), dict(mask_present=len(m) > 0, max_errors=e, length=L(len(v)), mask=m, value=v, file=f)
        q("sts", "StringTokenSearch", sts)
        def ac(): a, b = R.randrange(256), R.randrange(256); return s.H("ac", [a, b], rec("AccessClass", [("specifier", a), ("mask", b)]) + " " + rec("AccessClass", [("specifier", 15), ("mask", 15)]), "AccessClass")
        add("AccessClass", ac)
        def ch():
            a, b, c = g("ChannelBand"), g("ChannelClass"), g("ChannelCoding")
            return s.H("ch", tk("ChannelBand", a) + tk("ChannelClass", b) + tk("ChannelCoding", c), rec("ChannelHeader", [("channel_band", a), ("channel_class", b), ("channel_coding", c)]), "ChannelHeader")
        add("ChannelHeader", ch)
        def ps():
            x = [R.randrange(1 << 32) for _ in range(3)] + [R.randrange(1 << 16)]
            cs = [g("ChannelStatus") for _ in range(R.choice([0, 1, 3, 255]))]
            tt = [len(cs)]
            for c in cs: tt += tk("ChannelStatus", c)
            return s.H("ps", x + tt, rec("PhyStatus", [("up_time", x[0]), ("rx_time", x[1]), ("tx_time", x[2]), ("tx_duty_cycle", x[3]), ("channel_status_list_length", len(cs)), ("channel_status", cs)]), "PhyStatus")
        add("PhyStatus", ps)
        def ad():
            uv, gc = R.random() < .5, g("GroupCondition")
            _, a1 = s.ctx(T["Address"]); _, a2 = s.ctx(T["NlsState"])
            a, n, c = s.gen("Address", a1), s.gen("NlsState", a2), g("AccessClass")
            vals = dict(group_condition=gc, use_vid=uv, address_type=s.idrec("AddressType", a.name), nls_method=s.idrec("NlsMethod", n.name), access_class=c, address=a, nls_state=n)
            order = [x.name for x in T["Addressee"].fields if isinstance(x, F)]
            return s.H("ad", [int(uv)] + tk("GroupCondition", gc) + tk("Address", a) + tk("NlsState", n) + tk("AccessClass", c), rec("Addressee", [(k, vals[k]) for k in order]), "Addressee")
        add("Addressee", ad)
        def st_op(st): return Rec("StatusOperand", "s", [(f.name, {"status_type": s.idrec("StatusType", st.name), "opcode": O(34), "status": st}[f.name]) for f in T["StatusOperand"].fields if isinstance(f, F)], "StatusOperand")
        def iso():
            _, a = s.ctx(T["InterfaceStatus"]); x = s.gen("InterfaceStatus", a)
            it = s.ident(T["InterfaceStatus"], x)
            y = Rec("InterfaceStatusOperation", "s", [(f.name, {"status": x}.get(f.name, s.idrec("InterfaceType", it))) for f in T["InterfaceStatusOperation"].fields if isinstance(f, F)], "InterfaceStatusOperation")
            st = Rec("Interface", "t", [("0", y)], "Status")
            return s.H("iso", tk("InterfaceStatus", x), f"{dbg(y)} | {dbg(st)} | {dbg(st_op(st))}", "InterfaceStatusOperation")
        add("InterfaceStatusOperation", iso)
        def sto():
            _, a = s.ctx(T["Status"]); st = s.gen("Status", a)
            return s.H("sto", tk("Status", st), dbg(st_op(st)), "Status")
        add("Status", sto); add("StatusOperand", sto)
        def cst(): c = g("ChunkStep"); return s.H("cst", tk("ChunkStep", c), rec("Chunk", [(f.name, {"step": c, "opcode": O(48)}[f.name]) for f in T["Chunk"].fields if isinstance(f, F)]), "Chunk")
        add("Chunk", cst); add("ChunkStep", cst)
        if "InterfaceFinalStatusOperation" in T:
            def fso():
                x = s.gen("InterfaceFinalStatus", (0xD7, 1))
                y = Rec("InterfaceFinalStatusOperation", "s", [("interface_id", 0xD7), ("status", x)], "InterfaceFinalStatusOperation")
                return s.H("fso", tk("InterfaceFinalStatus", x), f"{dbg(y)} | {dbg(Rec('InterfaceFinal', 't', [('0', y)], 'Status'))}", "InterfaceFinalStatusOperation")
            add("InterfaceFinalStatusOperation", fso)
        def acc():
            acts = []
            A = T["Action"]
            for _ in range(R.choice([0, 1, 2, 3, 5])):
                only = R.choice([None, "RequestTag", "ResponseTag", "Status", "Status"])
                for _ in range(200):
                    a = A.gen(R, (), only=1)
                    if only is None or a.name == only: break
                acts.append(a)
            isv = lambda a: a[0].status[0].status if a.name == "Status" and a[0].status.name == "Interface" else None
            i = next((isv(a) for a in acts if isv(a) is not None), None)
            wo = [a for a in acts if isv(a) is None]
            rq = next((a[0] for a in acts if a.name == "RequestTag"), None); rs = next((a[0] for a in acts if a.name == "ResponseTag"), None)
            S = lambda x: None if x is None else Some_(x)
            ri, si = S(rq and rq.id), S(rs and rs.id)
            if rq is None: ri = None
            if rs is None: si = None
            x = [S(i), wo, S(rq), ri, S(rs), si, ri if ri is not None else si, bool(rs is not None and rs.header.end_of_packet)]
            return s.H("acc", tk("Command", Rec("Command", "s", [("actions", acts)], "Command")), " | ".join(map(dbg, x)), "Command")
        add("Command", acc)
        for n in s.defaults:
            if want(n): out.append((n, lambda n=n: (f"Z {n}", {"Z": s.defaults[n]}, n)))
        for n, f in out:
            for _ in range(count if n != "Command" else 3 * count):
                def once(f=f):
                    try: return f()
                    except NoTok: return None
                yield once

def fields(line):
    """the driver's answer by field"""
    a = line.split("\t")
    o = {}
    if a[0][:1] == "D": o["D"] = "\t".join(a[:2]); rest = a[2:]
    elif a[0] == "V": o["V"] = "\t".join(a[:2]); rest = a[2:]
    else: o["D"] = a[0]; rest = a[1:]
    for x in rest: o[x[:1]] = x
    return o

def judge(case, line, kinds):
    """None, or (field, expected, got)"""
    l, e, n = case
    for k, x in e.items():
        if KIND[k] not in kinds: continue
        if k in ("H", "Z"): got = line
        else: got = fields(line).get(k, "-" if line not in ("DEAD", "HANG", "P") else line)
        if line in ("DEAD", "HANG") or got != x: return (k, x, got)
    return None
