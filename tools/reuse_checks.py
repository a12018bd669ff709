"""C24: what an edit cannot have changed is not lexed and parsed again. Recorded effort against Reuse.tla."""
import json, os, random
import common as C
import grammar as G
import cost
import incr_checks as I

NOCACHE = 40000


def item_grammar(rng):
    """a start rule that repeats cached, self-delimiting expressions"""
    g = G.Gen(rng, 'C09')
    for _ in range(400):
        try:
            g.attempt()
            g.next_ty = G.NODE0 + 1
            x = rng.random()
            if x < 0.4:
                item = g.cached(2)
            elif x < 0.6:
                item = ('pub', g.ty(), g.cached(2), False)
            elif x < 0.8:
                item = ('skip', ('tok', G.TOKS['(']), g.cached(2))
            else:
                item = ('or', [g.cached(1), g.cached(2)])
            return [('pub', G.NODE0, ('rep', item), False)]
        except G.Bad:
            continue
    raise Exception("no grammar found")


def document(rng, S, rules, n):
    item = rules[0][2][1]
    out = []
    for _ in range(n):
        for _ in range(20):
            S.budget = 60
            t = ''.join(S.gen(item))
            if len(t) < 30:
                break
        out.append(t + rng.choice(["", "", " ", "\n", " # ", "# #\n"]))
    return ''.join(out)


def generated(rng, n_g, n_h):
    cases = []
    while len(cases) < n_g:
        rules = item_grammar(rng)
        types = G.types_table()
        table = G.compile_rules(rules)
        spec = G.to_spec(table, types)
        S = G.Sent(rng, rules)
        ins = []
        for _ in range(n_h):
            t = document(rng, S, rules, rng.choice([2, 5, 12, 25]))
            bad = lambda t: '%' in t or cost.steps(spec, cost.significant(G.raw_tokens(t)), NOCACHE) is None
            if bad(t) or len(t) > 500:
                continue
            cur, edits, after = t, [], []
            for _ in range(3):
                def some(r):
                    x = r.random()
                    if x < 0.5:
                        return ''.join(r.choice("abcd()+* #\n") for _ in range(r.choice([1, 1, 2])))
                    return document(r, S, rules, 1)
                ops, nt = I.rand_edit(rng, cur, some)
                if bad(nt):
                    break
                edits.append(ops)
                after.append(nt)
                cur = nt
            if edits:
                ins.append(dict(text=t, edits=edits, after=after))
        if ins:
            cases.append(dict(lang=dict(types=types, lex=G.LEX, rules=table, binder="none"), ins=ins))
    return cases


ITEMS = {
    "rust": ["fn f(x: i32) -> u8 {{ let {} = x + 1; if {} == 2 {{ return y }} else {{ g(y, &mut x) }} }}\n", "struct T{} {{ a: u8, b: Vec<S{}> }}\n",
             "impl T {{ fn new{}() -> T {{ T {{ a: 1, b: vec{} }} }} }}\n", "enum E{} {{ A, B(u8), C {{ {}: u8 }} }}\n",
             "trait Tr: Foo {{ fn a{}(&self); fn {}() {{ loop {{ break; }} }} }}\n", "mod m{} {{ pub fn x() {{}} struct Q{}(u8); }}\n"],
    "fall": ["pub rule f{} {{ <with_skip a b{}>* }}\n", "rule g{} {{ 'x' <commit> {{y{} | z}}? }}\n", "rule l{}(p) {{ <layer p {{p {}','}}> }}\n",
             "pub rule item{} {{ {{ a | b c | <not d> e{} | <enter 'c' {{ f }}> }} '}}' }}\n"],
}
SHARE = 3     # editing one of many items: at most a third of the steps again


def whole(ops, n):
    return ops[0][0] == "c" and ops[-1][0] == "c" and ops[-1][2] == n


def shipped(rng, n):
    cases = []
    for lang, forms in ITEMS.items():
        ins = []
        for _ in range(n):
            docs = [rng.choice(forms).format(chr(97 + rng.randrange(26)) * rng.choice([1, 2]), chr(97 + rng.randrange(26))) for _ in range(rng.choice([24, 36]))]
            if rng.random() < 0.3:
                docs = [d.replace("\n", rng.choice(["\n", "\n// c\n", "\n\n"]) if lang == "rust" else "\n\n") for d in docs]
            text = ''.join(docs)
            cur, edits, share = list(docs), [], []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.randrange(len(cur))
                d = cur[k]
                at = sum(len(x) for x in cur[:k])
                n = sum(len(x) for x in cur)
                x = rng.random()
                if x < 0.6:         # a name inside an item changes
                    names = [i for i, ch in enumerate(d) if ch.isalpha() and 8 < i]
                    i = rng.choice(names)
                    new = d[:i] + rng.choice("abcxyz") + d[i:]
                    ops = [["c", 0, at + i], ["i", new[i]], ["c", at + i, n]]
                elif x < 0.8:       # an item is replaced
                    new = rng.choice(docs)
                    ops = ([["c", 0, at]] if at else []) + [["i", new]] + ([["c", at + len(d), n]] if at + len(d) < n else [])
                else:               # an item is added
                    new = rng.choice(docs) + d
                    ops = ([["c", 0, at]] if at else []) + [["i", new[:len(new) - len(d)]]] + [["c", at, n]]
                cur[k] = new
                edits.append(ops)
            ins.append(dict(text=text, edits=edits))
        for k in range(0, len(ins), 10):
            cases.append(dict(lang=lang, ins=ins[k:k + 10]))
    return cases


def other(rng, n):
    """arbitrary edits of the shipped texts: what is lexed again"""
    cases = []
    for lang in sorted(I.DOCS):
        some = I.inserted(lang)
        ins = []
        for _ in range(n):
            t = ''.join(rng.choice(I.DOCS[lang]) for _ in range(rng.choice([1, 2, 4])))
            cur, edits = t, []
            for _ in range(rng.choice([1, 2, 4])):
                ops, nt = I.rand_edit(rng, cur, some)
                if not I.lookahead_safe(lang, cur, ops, nt) or "#" * 28 in nt:
                    break
                edits.append(I.to_bytes(cur, ops))
                cur = nt
            if edits:
                ins.append(dict(text=t, edits=edits))
        for k in range(0, len(ins), 10):
            cases.append(dict(lang=lang, ins=ins[k:k + 10]))
    return cases


def lines_of(cases, outs, kind):
    lines, index = [], []
    for ci, (case, out) in enumerate(zip(cases, outs)):
        g = G.to_spec(case["lang"]["rules"], case["lang"]["types"]) if kind == "generated" else []
        for ii, inp in enumerate(case["ins"]):
            rec = out["outs"][ii]["steps"] if "outs" in out else []
            steps = []
            texts = [inp["text"]] + inp.get("after", [])
            for k, ops in enumerate(inp["edits"]):
                s = rec[k] if k < len(rec) else {}
                ok = "inc" in s and all(s[x] is not None for x in ("relexed", "inc", "full"))
                size = lambda o: [o[0], o[1], o[2]] if o[0] == "c" else ["i", len(o[1].encode())]
                d = dict(ops=[size(o) for o in ops], bad=0 if ok else 1, share=SHARE if kind == "items" else 0)
                if ok:
                    d.update(relexed=s["relexed"], inc=s["inc"], full=s["full"], oldEnds=s["oldEnds"], newEnds=s["newEnds"], error=s["error"])
                if kind == "generated":
                    ends = lambda raw: [sum(t[1] for t in raw[:i]) for i in range(len(raw) + 1)]
                    old, new = G.raw_tokens(texts[k]), G.raw_tokens(texts[k + 1])
                    d.update(old=old, new=new, oldEnds=ends(old), newEnds=ends(new), error=1 if any(t[0] == 0 for t in old) else 0)
                steps.append(d)
                if not ok:
                    break
            lines.append(dict(g=g, steps=steps))
            index.append((ci, ii))
    return lines, index


def judge(rep, kind, cases, outs):
    lines, index = lines_of(cases, outs, kind)
    d = C.work(rep.prop)
    path = os.path.join(d, kind + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("ReuseTrace", env={"TRACE": path}, timeout=800, dirname=d, heap="8g"), kind)
    rep.tlc(res, len(lines))
    rep.add(**{kind + "_edits": sum(len(l["steps"]) for l in lines)})
    if res.violated:
        st = res.last_state()
        c, j = int(st["c"]) - 1, int(st["j"]) - 1
        ci, ii = index[c]
        s = lines[c]["steps"][j]
        rep.violation("%s: after edit %d of %r more is done again than needed: %s" % (
            kind, j + 1, cases[ci]["ins"][ii]["text"][:60], {k: s.get(k) for k in ("relexed", "inc", "full", "bad")}),
            dict(lang=cases[ci]["lang"], input=cases[ci]["ins"][ii], step=j, recorded=s))
        return False
    return True


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("C24-%d" % C.SEED)
    m = 8 if C.THOROUGH else 1
    for kind, cases in (("generated", generated(rng, 150 * m, 5)), ("items", shipped(rng, 60 * m)), ("other", other(rng, 80 * m))):
        outs = C.run_cases(binary, "efforts", cases)
        rep.sample(dict(kind=kind, lang=cases[0]["lang"] if kind != "generated" else cases[0]["lang"]["rules"], history=cases[0]["ins"][0]))
        if not judge(rep, kind, cases, outs):
            break
    rep.assumptions += ["effort is what the implementation's own metrics count; it is compared up to a factor of two, or against a parse from scratch",
                        "grammars that repeat cached rules; edits of documents without error tokens for what is lexed again"]
    rep.finish()
