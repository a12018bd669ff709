"""C08: random lexical rule sets and the shipped ones, judged by LexTrace.tla."""
import os, random
import common as C
import regexes as X
import fallsrc

REP = "ab01 \n'\"#/*!.<=-\\\u00e9\u03bb\u20ac\U0001F600_\u00a0\u0663rx(){}\t"
SHIPPED = {
    "rust": "lang/rust/syntax/src/rust.fall", "fall": "lang/fall/syntax/src/fall.fall", "json": "lang/json/src/json.fall",
    "bnf": "lang/bnf/src/bnf.fall", "arith": "fall/test/src/arith.fall", "sexp": "fall/test/src/sexp.fall",
    "weird": "fall/test/src/weird.fall",
}


def rand_re(r, d=2):
    x = r.random()
    if d == 0 or x < 0.35:
        y = r.random()
        if y < 0.5:
            return X.lit(r.choice("ab01'\"#/*!<=\u00e9\U0001F600"))
        return r.choice([X.SPACE, X.DIGIT, X.WORD, X.DOT, X.charset('ab'), X.charset('"', True), X.charset('a\n', True), X.charset("01#")])
    if x < 0.6:
        return ('seq', [rand_re(r, d - 1) for _ in range(r.choice([2, 2, 3]))])
    if x < 0.75:
        return ('alt', [rand_re(r, d - 1) for _ in range(r.choice([2, 2, 3]))])
    if x < 0.87:
        return ('plus', rand_re(r, d - 1))
    if x < 0.94:
        return ('seq', [rand_re(r, d - 1), ('star', rand_re(r, d - 1))])
    return ('seq', [rand_re(r, d - 1), ('opt', rand_re(r, d - 1))])


KEYS = ["a", "ab", "aba", "abb", "b", "/", "/=", "<", "<<", "<<=", "=", "==", "#", "##", "!", "0", "01", "\u00e9", "\u20ac", "a\U0001F600", "'", "--", "-"]
CUSTOM = [("parse_raw_string", ('seq', [X.lit('r'), ('star', X.lit('#')), X.lit('"')])),
          ("parse_block_comment", X.string("/*")),
          ("until_bang", ('seq', [X.lit('b'), ('star', X.lit('b'))])),
          ("grab_two", X.string("x")),
          ("decline", X.string("0")), ("until_bang", X.charset("\u03bb<"))]


def rand_rules(r):
    rules = []
    if r.random() < 0.7:
        rules.append((('plus', X.SPACE), ''))
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        x = r.random()
        if x < 0.4:
            rules.append((X.string(r.choice(KEYS)), ''))
        elif x < 0.6:
            f, e = r.choice(CUSTOM)
            rules.append((e, f))
        elif x < 0.7:
            rules.append((('plus', X.WORD), ''))
        elif x < 0.78:
            rules.append((('seq', [X.lit('"'), ('star', X.charset('"', True)), X.lit('"')]), ''))
        else:
            rules.append((rand_re(r), ''))
    r.shuffle(rules)
    return rules


def rand_text(r, n, rep=REP):
    out = []
    small = r.sample(rep, r.choice([2, 3, 5, len(rep)]))
    frag = ["/*", "*/", 'r#"', '"#', 'r"', "ab", "aba", "<<", "<<=", "01", "\"a\"", "!", "bb", "x", "  "]
    while sum(map(len, out)) < n:
        out.append(r.choice(frag) if r.random() < 0.3 else r.choice(small))
    return ''.join(out)


def chars(t):
    return [[ord(c), len(c.encode())] for c in t]


def runs(segs):
    """Characters of a text given as (string, times): of a long run all but the first and last count as one wide one.
    None of the rules used with it tells three characters of a run from more."""
    out = []
    for t, n in segs:
        if n > 3:
            (c, b), = chars(t)
            out += [[c, b], [c, b * (n - 2)], [c, b]]
        else:
            out += chars(t * n)
    return out


LONG = [(('plus', X.SPACE), ''), (('plus', X.WORD), ''), (('seq', [X.lit('"'), ('star', X.charset('"', True)), X.lit('"')]), ''),
        (('seq', [X.lit('r'), ('star', X.lit('#')), X.lit('"')]), 'parse_raw_string'), (X.string("/*"), 'parse_block_comment'),
        (('plus', X.lit('<')), 'until_bang'), (X.string("/"), ''), (X.string("!"), ''), (('seq', [X.lit('='), ('star', X.lit('-'))]), ''),
        (('seq', [X.lit('0'), ('opt', X.WORD)]), '')]


def rand_long(r):
    segs = []
    for _ in range(r.choice([1, 2, 3])):
        a, c, z = r.choice([("", " ", ""), ("", "a", ""), ("", "\u00e9", ""), ("", "%", ""), ("", "\u20ac", ""), ('"', "a", '"'), ('"', "\U0001F600", '"'), ('r#"', "x", '"#'),
                            ('r"', "#", '"'), ("/*", "*", "/"), ("/*", "a", "*/"), ("/*", "\u00e9", "*/*/"), ("<", "a", "!"), ("<", "<", "!"), ("<", "/", ""), ("=", "-", "")])
        k = r.choice([255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 131073, 200001])
        if a == "<":
            k = min(k, 1000)
        elif r.random() < 0.2:
            z = ""
        segs += [(x, 1) for x in (r.choice(["", "/", "!", "ab", " "]), a)] + [(c, k), (z, 1), (r.choice(["", "/", "!", "%", "\n", "=", '"']), 1)]
    return [x for x in segs if x[0]]


def leaves(rows):
    out = []
    for i, x in enumerate(rows):
        if (i + 1 == len(rows) or rows[i + 1][0] <= x[0]) and x[3] > x[2]:
            out.append([x[1], x[2], x[3]])
    return out


FRAGS = {
    "rust": ["fn", "f", "(", ")", "{", "}", "let", "x", "=", "==", "=>", "<<=", ">>", "..", "...", "'a'", "'a", "'static", "'\\''", "'\\n'", "'{'", "\"s\\\"t\"", "\"", "r#\"q\"#", "r##\"\"#\"##", "r\"", "r#x", "br", "/*", "*/", "/**/", "// c\n", "//", "\u00e9t\u00e9", "_", "_a", "12", "1.5", "truex", "true", "selfie", "self", "\u20ac", "\U0001F600", "\n", " ", "\t", "#", "$", "@", "~", "union", "&&", "||", "->", "::", ":", "\\", "'", "'''", "''"],
    "fall": ["rule", "tokenizer", "{", "}", "'a'", "'\\''", "'", "\"", "r\"a\"", "r#\"b\"#", "r##\"\"#\"##", "r#", "// c\n", "//", "<", ">", "|", "*", "?", "#", "[", "]", "1", "ab", "\u00e9", "\u20ac", "pub", "=", ".", ",", ":", " ", "\n", "-", "\\"],
    "json": ["{", "}", "[", "]", ":", ",", "null", "true", "falsey", "\"a\"", "\"\\\"", "\"", "12", "-1", "nullx", " ", "\n", "\u00e9"],
    "bnf": ["->", "|", "'a'", "'", "S", "T1", " ", "\n", "-", ">", "\u00e9", "''"],
    "arith": list("+-*/!()12 \n") + ["12", "a", "%"],
    "sexp": ["(", ")", "a", "ab1", " ", "\n", "\u00e9", "+"],
    "weird": ["r#\"a\"#", "r##\"\"#\"##", "r", "#", "foo", "bar", "foobar", "_1", "_2", "_3", "_4", "{", "}", "x", " ", "\"", "r#"],
}


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    r = random.Random("C08-%d" % C.SEED)
    n_sets, n_txt = (500, 12) if not C.THOROUGH else (6000, 20)
    cases, lines = [], []
    for _ in range(n_sets):
        rules = rand_rules(r)
        texts = []
        for _ in range(n_txt * 2):
            t = rand_text(r, r.choice([1, 2, 4, 8, 12, 16]))
            if all(X.agree(e, t) for e, _ in rules):
                texts.append(t)
            if len(texts) >= n_txt:
                break
        if not texts:
            continue
        types = [[0, "ERROR", False]] + [[i + 1, "T%d" % i, False] for i in range(len(rules))] + [[99, "FILE", False]]
        lang = dict(types=types, lex=[[i + 1, X.render(e), f or None] for i, (e, f) in enumerate(rules)],
                    rules=[{"Pub": {"ty": len(types) - 1, "body": 1, "replaceable": False}}, {"Rep": 2}, "Any"], binder="none")
        cases.append(dict(lang=lang, ins=[dict(text=t) for t in texts]))
        res, idx = X.table([e for e, _ in rules], REP)
        lines.append(dict(rules=[dict(ty=i + 1, re=idx[i], f=f) for i, (_, f) in enumerate(rules)], res=res, ctx=[], err=0))
    outs = C.run_cases(binary, "engine", cases)
    index = []
    for ci, (case, out, line) in enumerate(zip(cases, outs, lines)):
        line["ins"] = []
        for ii, inp in enumerate(case["ins"]):
            t = out["outs"][ii]["trees"][0] if "outs" in out else out
            # an empty text has no tokens; error nodes cannot occur: the start rule takes everything
            line["ins"].append(dict(chars=chars(inp["text"]), leaves=leaves(t) if isinstance(t, list) else [[-1, 0, 0]]))
    rep.add(rule_sets=len(cases), custom_rules=sum(1 for c in cases for x in c["lang"]["lex"] if x[2]))
    meta = [("random", c["lang"], c["ins"], o) for c, o in zip(cases, outs)]

    # tokens of many characters
    lcases, llines = [], []
    for _ in range(30 if not C.THOROUGH else 400):
        rules = LONG[:]
        r.shuffle(rules)
        rules = rules[:r.choice([4, 7, 10])]
        types = [[0, "ERROR", False]] + [[i + 1, "T%d" % i, False] for i in range(len(rules))] + [[99, "FILE", False]]
        lang = dict(types=types, lex=[[i + 1, X.render(e), f or None] for i, (e, f) in enumerate(rules)],
                    rules=[{"Pub": {"ty": len(types) - 1, "body": 1, "replaceable": False}}, {"Rep": 2}, "Any"], binder="none")
        res, idx = X.table([e for e, _ in rules], REP + "%")
        ins, specs = [], []
        for segs in [rand_long(r) for _ in range(6)]:
            if all(X.agree(e, ''.join(t * min(n, 3) for t, n in segs)) for e, _ in rules):
                ins.append(dict(text=''.join(t * n for t, n in segs)))
                specs.append(runs(segs))
        lcases.append(dict(lang=lang, ins=ins))
        llines.append((dict(rules=[dict(ty=i + 1, re=idx[i], f=f) for i, (_, f) in enumerate(rules)], res=res, ctx=[], err=0, ins=[]), specs))
    for case, out, (line, specs) in zip(lcases, C.run_cases(binary, "engine", lcases), llines):
        for ii, sp in enumerate(specs):
            t = out["outs"][ii]["trees"][0] if "outs" in out else out
            # the first ones are enough to tell: LexTrace judges nothing where a run should be more than one token
            line["ins"].append(dict(chars=sp, leaves=leaves(t)[:200] if isinstance(t, list) else [[-1, 0, 0]]))
        rep.add(long_texts=len(specs))
        lines.append(line)
        meta.append(("long", case["lang"], case["ins"], dict(outs=[dict(trees=["..."])] * len(specs))))

    # shipped languages
    tys = C.run_cases(binary, "types", [dict(lang=n) for n in SHIPPED])
    scases, slines = [], []
    n_ship = 60 if not C.THOROUGH else 1000
    for (name, path), ty in zip(SHIPPED.items(), tys):
        src = open("/repo/" + path).read()
        toks = fallsrc.tokenizer(src)
        num = {n: t for t, n, _ in ty["types"]}
        rules = [(num[n.upper()], e, f) for n, a, e, f in toks if 'contextual' not in a]
        rep_chars = sorted(set(''.join(FRAGS[name])) | set(REP))
        texts = [""]
        while len(texts) < n_ship * (3 if name in ("rust", "fall") else 1):
            x = r.random()
            if x < 0.7:
                t = ''.join(r.choice(FRAGS[name]) for _ in range(r.choice([1, 2, 3, 5, 8, 12])))
            else:
                t = rand_text(r, r.choice([2, 4, 8]), ''.join(rep_chars))
            if all(X.agree(e, t) for _, e, _ in rules):
                texts.append(t)
        if name in ("rust", "fall"):
            texts += ["r" + "#" * n + '" "#"' + "#" * n + " x" for n in (1, 2, 29, 30, 31, 40)]
            texts += ["r" + "#" * 30 + '" "' + "#" * 31]
        scases.append(dict(lang=name, ins=[dict(text=t) for t in texts]))
        res, idx = X.table([e for _, e, _ in rules], rep_chars)
        slines.append(dict(rules=[dict(ty=t, re=idx[i], f=f) for i, (t, _, f) in enumerate(rules)], res=res,
                           ctx=[num[n.upper()] for n, a, _, _ in toks if 'contextual' in a] or [-1], err=0))
    souts = C.run_cases(binary, "lang", scases)
    # split so that every trace line is of similar size
    for case, out, line in zip(scases, souts, slines):
        ins = case["ins"]
        for k in range(0, len(ins), 12):
            l = dict(line)
            l["ins"] = []
            sub = ins[k:k + 12]
            so = out["outs"][k:k + 12] if "outs" in out else [dict(trees=[out])] * len(sub)
            for inp, o in zip(sub, so):
                t = o["trees"][0]
                l["ins"].append(dict(chars=chars(inp["text"]), leaves=leaves(t) if isinstance(t, list) else [[-1, 0, 0]]))
            lines.append(l)
            meta.append(("shipped", case["lang"], sub, dict(outs=so)))
    d = C.work(prop)
    path = os.path.join(d, "lex.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("LexTrace", env={"TRACE": path}, timeout=800, dirname=d), "LexTrace")
    rep.tlc(res, sum(len(l["ins"]) for l in lines))
    rep.sample(dict(rules=cases[0]["lang"]["lex"], text=cases[0]["ins"][-1]["text"], leaves=lines[0]["ins"][-1]["leaves"]))
    if res.violated:
        st = res.last_state()
        c, j = int(st["c"]) - 1, int(st["j"]) - 1
        kind, lang, ins, out = meta[c]
        exp = res.printed("EXPECTED")
        rep.violation("%s lexer: tokens differ from the specification on %r" % (kind, ins[j]["text"][:300]),
                      dict(lang=lang, text=ins[j]["text"], outcome=out["outs"][j] if "outs" in out else out,
                           recorded=lines[c]["ins"][j]["leaves"], expected=exp[-1]["e"] if exp else None))
    # known finding: a text that makes the weird grammar's raw string function panic
    k = [x for x in rep.known if x.get("lang") == "weird"]
    for x in k:
        o = C.run_cases(binary, "lang", [dict(lang="weird", ins=[dict(text=x["text"])])])[0]
        if "panic" in str(o["outs"][0]["trees"][0]):
            rep.known_finding("weird: parsing r, %d hashes and a quote panics" % x["text"].count("#"))
    rep.finish()
