"""C02..C07: random grammars and sentences, parsed by the implementation, judged by EngineTrace.tla."""
import json, os, random
import common as C
import grammar as G
import cost
import small

LIMIT = 4000      # evaluation steps of the specification per input
PUMPED = 12000    # the same for long inputs

BINDERS = ["none", "parity", "comments", "one"]


def pumped(rng, text, focus):
    """The text with a piece of it, or a blank one, repeated many times."""
    n = rng.choice([17, 20, 33, 65, 70, 130, 260, 300])
    i = rng.randrange(len(text) + 1)
    if rng.random() < (0.6 if focus == 'C07' else 0.15):
        return text[:i] + ''.join(rng.choice(["#", "\n\n", " ", "# #\n"]) if rng.random() < 0.3 else "# " for _ in range(n)) + text[i:]
    j = min(len(text), i + rng.choice([1, 1, 1, 2, 3]))
    return text[:i] + text[i:j] * n + text[j:]


def make_case(rng, focus, n_inputs, binder=None, maxlen=24):
    rules = G.Gen(rng, focus).grammar()
    if rng.random() < 0.6:
        rules = G.renumber(rng, rules)
    types = G.types_table()
    table = G.compile_rules(rules)
    S = G.Sent(rng, rules)
    spec = G.to_spec(table, types)
    sp = 0.45 if focus == 'C07' else 0.12
    texts = []
    seen = set()
    for _ in range(n_inputs * 3):
        t = S.text(sp, maxlen)
        if t not in seen:
            seen.add(t)
            if cost.steps(spec, cost.significant(G.raw_tokens(t)), LIMIT) is not None:
                texts.append(t)
        if len(texts) >= n_inputs:
            break
    if texts and rng.random() < 0.6:
        for _ in range(6):
            t = pumped(rng, rng.choice(texts), focus)
            if t not in texts and len(t) > 10 and cost.steps(spec, cost.significant(G.raw_tokens(t)), PUMPED) is not None:
                texts.append(t)
                break
    b = binder or (rng.choice(BINDERS) if focus == 'C07' else "none" if rng.random() < 0.7 else rng.choice(BINDERS))
    return dict(lang=dict(types=types, lex=G.LEX, rules=table, binder=b), ins=[dict(text=t) for t in texts])


def spec_lines(cases, outs, raw=G.raw_tokens):
    """Trace lines for EngineTrace: grammar + per input raw tokens and recorded rows."""
    lines, index = [], []
    for ci, (case, out) in enumerate(zip(cases, outs)):
        ins = []
        idx = []
        for ii, inp in enumerate(case["ins"]):
            if "outs" in out:
                trees = out["outs"][ii]["trees"]
                texts = out["outs"][ii].get("texts", [])
            else:
                trees, texts = [out], []
            want = [inp["text"]] + list(inp.get("after", []))
            for k, text in enumerate(want):
                t = trees[k] if k < len(trees) else {"missing": True}
                rows = t if isinstance(t, list) else []
                ins.append(dict(raw=raw(text), rows=rows))
                idx.append((ci, ii, k, text, t if not isinstance(t, list) else None))
        lines.append(dict(g=G.to_spec(case["lang"]["rules"], case["lang"]["types"]), bind=case["lang"]["binder"], ins=ins))
        index.append(idx)
    return lines, index


def judge(rep, cases, outs, name, timeout=800, raw=G.raw_tokens):
    lines, index = spec_lines(cases, outs, raw)
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("EngineTrace", env={"TRACE": path}, timeout=timeout, dirname=d), name)
    n = sum(len(l["ins"]) for l in lines)
    rep.tlc(res, n)
    if res.violated:
        st = res.last_state()
        c, j = int(st["c"]) - 1, int(st["j"]) - 1
        ci, ii, k, text, err = index[c][j]
        case = cases[ci]
        exp = res.printed("EXPECTED")
        rep.violation("%s: tree differs from the specification on %r (step %d)%s" % (name, text, k, " outcome %s" % err if err else ""),
                      dict(lang=case["lang"], input=case["ins"][ii], step=k, text=text, outcome=err,
                           recorded=lines[c]["ins"][j]["rows"], expected=exp[-1]["e"] if exp else None))
        return False
    return True


SMALL = {   # per property: expressions per family, exhaustive up to, sizes sampled, texts per grammar
    "C02": (4000, 4), "C03": (2500, 4), "C04": (6000, 0), "C05": (2000, 4), "C06": (2500, 4), "C07": (3000, 4),
}


def small_part(rep, binary, prop):
    """every small grammar of the property's families, with every short text"""
    rng = random.Random("small-%s-%d" % (prop, C.SEED))
    n, ex = SMALL[prop]
    if C.THOROUGH:
        n, ex = n * 6, ex + 1 if ex else 0
    binders = ("none", "none", "parity", "comments", "one") if prop == "C07" else ("none", "none", "none", "parity")
    cases = small.cases(rng, prop, n, ex, [4, 5, 6, 6, 7, 7, 8, 9, 10], 3, binders=binders)
    rng.shuffle(cases)
    rep.add(small_grammars=len(cases), small_inputs=sum(len(c["ins"]) for c in cases), every_expression_up_to_size=ex)
    for k in range(0, len(cases), 12000):
        part = cases[k:k + 12000]
        outs = C.run_cases(binary, "engine", part)
        if not judge(rep, part, outs, "small"):
            return


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    n_g, n_i = (400, 14) if not C.THOROUGH else (4000, 25)
    rng = random.Random("%s-%d" % (prop, C.SEED))
    focus_cases = [make_case(rng, prop, n_i) for _ in range(n_g)]
    mixed = [make_case(rng, 'all', n_i) for _ in range(n_g // 4)]
    cases = focus_cases + mixed
    outs = C.run_cases(binary, "engine", cases)
    rep.add(grammars=len(cases))
    kinds = {}
    for c in cases:
        for x in G.to_spec(c["lang"]["rules"], c["lang"]["types"]):
            kinds[x["k"]] = kinds.get(x["k"], 0) + 1
    rep.add(constructs=kinds)
    ok = judge(rep, cases, outs, "random")
    if ok:
        small_part(rep, binary, prop)
    rep.sample(dict(rules=cases[0]["lang"]["rules"], text=cases[0]["ins"][-1]["text"], out=outs[0]["outs"][-1]["trees"][0] if "outs" in outs[0] else outs[0]))
    rep.finish()
