"""C10: TextEdit.tla explored exhaustively and every history replayed on the real builder; range and text
operations recorded and validated against Text.tla."""
import os, random
import common as C


def batch(binary, cases, size=400):
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    outs = C.run_cases(binary, "text", chunks)
    res = []
    for ch, o in zip(chunks, outs):
        res += o if isinstance(o, list) else [dict(crash=o)] * len(ch)
    return res


TEXTS = [["a", "b", "c"], ["x", "\u03b2", "\U0001d11e"], ["\n", "\u00e9", " "]]
INS = ["", "Q", "\u03bb-"]


def replay(rep, binary, cfg):
    res = C.tlc_or_die(C.tlc("TextEdit", cfg, timeout=800, dirname=C.work("C10")), cfg)
    rep.tlc(res)
    if res.violated:
        return rep.violation("TextEdit.tla: %s" % res.violated, dict(out=res.out[-3000:]))
    hs = res.printed("HISTORY")
    cases, want = [], []
    for k, h in enumerate(hs):
        for v in range(3) if C.THOROUGH else (k % 3,):
            n = 3 if cfg == "TextEdit" else 2
            chars = TEXTS[v][:n]
            off = [0]
            for ch in chars:
                off.append(off[-1] + len(ch.encode()))
            off.append(off[-1] + 1)
            ins = [INS[(k + i) % 3] for i in range(len(h["h"]))]
            cases.append(dict(k="builder", s="".join(chars), ops=[[o[0], off[o[1]], off[o[2]], ins[i]] for i, o in enumerate(h["h"])]))
            want.append([dict(text="".join(chars[x[1]] if x[0] == "t" else ins[x[1] - 1] for x in h["out"]))] if h["ok"] else [])
    outs = batch(binary, cases)
    rep.add(builder_histories=len(cases), refused_histories=sum(w == [] for w in want))
    rep.cov["traces_validated_against_impl"] += len(cases)
    for c, w, o in zip(cases, want, outs):
        if w != o:
            return rep.violation("edit builder: %s, specification %s" % (o, w), dict(case=c, recorded=o, expected=w))
    rep.sample(cases[len(cases) // 2])


ALPH = [97, 98, 97, 98, 32, 10, 233, 955, 119070, 160, 8195, 0x3000, 35, 9, 0x1680]


def rand_s(r, n):
    k = r.choice([1, 2, 3, len(ALPH)])
    al = r.sample(ALPH, k)
    return [r.choice(al) for _ in range(r.randrange(n + 1))]


def nbytes(s):
    return len("".join(map(chr, s)).encode())


def recorded(rep, binary):
    r = random.Random("C10-%d" % C.SEED)
    cases = []
    P = [(a, b) for a in range(5) for b in range(5)]
    for x in P:
        for q in P:
            if q[0] <= q[1]:
                cases.append(dict(k="range", r=list(x), q=list(q), n=r.randrange(6)))
    big = [0, 1, 255, 256, 65535, 65536, 10**6, 2**30, 2**30 + 1, 2**30 - 1]
    for _ in range(1500):
        cases.append(dict(k="range", r=[r.choice(big), r.choice(big)], q=[r.choice(big), r.choice(big)], n=r.choice([0, 1, 1000, 2**29])))
    for _ in range(400):
        cases.append(dict(k="unit", a=r.choice(big[:-3] + [r.randrange(1000)]), b=r.choice(big[:-3] + [r.randrange(1000)])))
    for _ in range(9000 if not C.THOROUGH else 90000):
        s = rand_s(r, 8)
        cuts, n = [], nbytes(s)
        chars = "".join(map(chr, s))
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            bounds = [0]
            for ch in chars:
                bounds.append(bounds[-1] + len(ch.encode()))
            pick = lambda: r.choice(bounds) if r.random() < 0.9 else r.randrange(n + 3)
            a, b = pick(), pick()
            if a > b and r.random() < 0.9:
                a, b = b, a
            if r.random() < 0.25:
                cuts.append([a])
                b = n
            else:
                cuts.append([a, b])
            if a > b or b > n:
                break
            try:
                chars = chars.encode()[a:b].decode()
            except UnicodeDecodeError:
                break
            n = b - a
        part = list(map(ord, chars))
        x = r.random()
        needle = rand_s(r, 2) if x < 0.4 else part[r.randrange(len(part) + 1):][:r.randrange(4)] if x < 0.8 else part[:]
        x = r.random()
        other = part[:] if x < 0.4 else part[:-1] if x < 0.5 else part + [97] if x < 0.6 else rand_s(r, 6)
        cases.append(dict(k="text", s=s, cuts=cuts, needle=needle, other=other))
        if r.random() < 0.4:
            n = nbytes(s)
            ops = []
            for _ in range(r.randrange(5)):
                if r.random() < 0.4:
                    ops.append(["i", rand_s(r, 3)])
                else:
                    a, b = sorted([r.randrange(n + 1), r.randrange(n + 1)])
                    if r.random() < 0.05:
                        b += 3
                    ops.append(["c", a, b])
            cases.append(dict(k="edit", s=s, ops=ops))
    outs = batch(binary, cases)
    for c, o in zip(cases, outs):
        c["out"] = o
    bad = [c for c in cases if isinstance(c["out"], dict) and "crash" in c["out"]]
    if bad:
        return rep.violation("driver: %s" % bad[0]["out"], bad[0])
    path = os.path.join(C.work("C10"), "text.ndjson")
    C.write_ndjson(path, cases)
    res = C.tlc("TextTrace", env={"TRACE": path}, timeout=800, dirname=C.work("C10"))
    if res.violated or "Error: Evaluating" in res.out or "was unequal" in res.out or "Attempted to" in res.out:
        st = res.last_state()
        if "c" in st:
            x = cases[int(st["c"]) - 1]
            return rep.violation("%s operations disagree with Text.tla: %r" % (x["k"], x), x)
        return rep.violation("recorded operations disagree with Text.tla", dict(out=res.out[-3000:]))
    C.tlc_or_die(res, "TextTrace")
    rep.tlc(res, len(cases))
    kinds = {}
    for c in cases:
        kinds[c["k"]] = kinds.get(c["k"], 0) + 1
    rep.add(recorded_operations=kinds)
    rep.sample(cases[-1])


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    for cfg in ("TextEdit", "TextEdit3"):
        replay(rep, binary, cfg)
    if C.THOROUGH:
        res = C.tlc_or_die(C.tlc("TextEdit", "TextEditDeep", timeout=840, dirname=C.work("C10")), "TextEditDeep")
        rep.tlc(res)
    recorded(rep, binary)
    rep.assumptions += ["offsets stay below 2^31 in the recorded operations", "TextBuf and Text compared as UTF-8 strings"]
    rep.finish()
