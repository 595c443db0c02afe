#!/usr/bin/env python3
"""mutants.py SEED COUNT [file-regex]: random one-place changes of the sources that compile and pass the tests; which checks see them. Development tool."""
import os, sys, re, random, subprocess
REPO = os.environ.get("MREPO", "/tmp/s/repo"); TGT = os.environ.get("MTGT", "/tmp/s/tgt")
def sh(c, **k): return subprocess.run(c, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
PROPS = [("transport/", "P15"), ("network/addressee|network/network", "P15 P09"), ("network/", "P15 P14"), ("link/", "P15 P16"), ("data/", "P15 P09"), ("physical/", "P15 P10"), ("types.rs", "P07"),
         ("file/", "P11 P16"), ("session/interface_final", "P10"), ("session/", "P09"), ("app/interface_final", "P10 P12"), ("app/interface", "P09 P16"), ("length.rs", "P06"), ("file_offset", "P06 P08"),
         ("operation/mod", "P01 P03 P12 P17"), ("action.rs", "P01 P03 P17"), ("command.rs", "P02 P13"), ("query.rs", "P08 P17"), ("utils.rs", "P05 P12 P16")]
R = random.Random(int(sys.argv[1])); N = int(sys.argv[2]); FR = sys.argv[3] if len(sys.argv) > 3 else "."
OPS = [(r'endian = "big"', 'endian = "little"'), (r'endian = "little"', 'endian = "big"'), (r"&&", "||"), (r"\|\|", "&&"), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbits = (\d+)", lambda m: "bits = %d" % (int(m[1]) + R.choice([-1, 1]))),
       (r'\bid = "(0x[0-9A-Fa-f]+|\d+)"', lambda m: 'id = "%d"' % (int(m[1], 0) + R.choice([-1, 1, 2]))), (r'pad_bits_before = "(\d+)"', lambda m: 'pad_bits_before = "%d"' % (int(m[1]) + R.choice([-1, 1]))),
       (r'cond = "(\*?[\w.]+)"', lambda m: 'cond = "!(%s)"' % m[1]), (r"(?<![\w.\"=])(\d+)(?=[;,)\] ])", lambda m: str(int(m[1]) + R.choice([-1, 1]) if int(m[1]) else 1)), (r"(?<![\w])0x([0-9A-Fa-f]+)\b", lambda m: "0x%X" % (int(m[1], 16) ^ (1 << R.randrange(7)))),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\.first\(\)", ".last()"), (r"!(self|\w+)\.", r"\1."), (r" as u16", " as u8 as u16"), (r" as u32", " as u8 as u32"), (r"cmp::min", "cmp::max"), (r"^(\s*)pub (\w+): (u8|bool),", None)]
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
files = [f for f in sh("git ls-files dash7/src").stdout.split() if f.endswith(".rs") and "test_tools" not in f and re.search(FR, f)]
cands = []
for f in files:
    L = open(f"{REPO}/{f}").read().split("\n")
    end = next((i for i, l in enumerate(L) if "cfg(test)" in l), len(L))
    for i in range(end):
        if L[i].strip().startswith("//") or "derive(" in L[i] or "cfg_attr" in L[i] and R.random() < .3: continue
        for a, b in OPS:
            for m in re.finditer(a, L[i]):
                if b is None:
                    j = i + 1
                    while j < end and not re.match(r"\s*pub (\w+): ", L[j]) and j < i + 6: j += 1
                    if j < end and re.match(r"\s*pub (\w+): " + m[3] + ",", L[j]): cands.append((f, i, "swap", j))
                else: cands.append((f, i, m.span(), m.expand(b) if isinstance(b, str) else b(m)))
R.shuffle(cands)
print(len(cands), "candidates", flush=True)
done = 0
for f, i, sp, new in cands:
    if done >= N: break
    p = f"{REPO}/{f}"; s = open(p).read(); L = s.split("\n")
    if sp == "swap":
        a, b = (re.match(r"\s*pub (\w+): ", L[k])[1] for k in (i, new))
        L[i], L[new] = L[i].replace(a, b, 1), L[new].replace(b, a, 1); d = f"swap {a} {b}"
    else:
        o = L[i]; L[i] = L[i][:sp[0]] + new + L[i][sp[1]:]; d = f"{o.strip()}  ->  {L[i].strip()}"
    open(p, "w").write("\n".join(L))
    try:
        o = ""
        for v in ("spec", "wizzilab", "subiot"):
            o = sh(f"timeout 300 cargo test --workspace --no-fail-fast --locked --offline --no-default-features -F std,{v} 2>&1 | grep -E '^error|FAILED|panicked' | head -3").stdout
            if o.strip(): break
        if o.strip(): continue
        done += 1
        res = []
        for c in next(x for r, x in PROPS if re.search(r, f)).split():
            o = sh(f"DASH7_REPO={REPO} DASH7_TARGET={TGT} timeout 1000 python3 /verif/lib/check.py {c} quick")
            Z = o.stdout.strip().split("\n")
            res.append(f"{c}:{'caught' if o.returncode == 1 and 'no-failing' not in Z[-1] else 'NFIF' if o.returncode == 1 else 'rc%d' % o.returncode + (' bounded' if 'bounded' in Z[-1] else '')}")
            if "caught" in res[-1]: break
        print(("MISS " if not any("caught" in x for x in res) else "     ") + f"{f.split('src/')[1]}:{i + 1} {d[:150]}  {res}", flush=True)
    finally: open(p, "w").write(s)
