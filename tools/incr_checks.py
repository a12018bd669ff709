"""C09: edit histories. Generated grammars with cached rules against the engine specification of the
resulting text; shipped languages against their own parse from scratch."""
import json, os, random, re
import common as C
import grammar as G
import cost
import engine_checks as E

WIDE = {'ab': 15, 'bc': 16, '++': 17, 'cd': 18}
G.CH.update({v: k for k, v in WIDE.items()})
WLEX = G.LEX + [[v, k.replace('+', '\\+'), None] for k, v in WIDE.items()]


def raw_wide(text):
    """Raw tokens with the two-character tokens; longest match."""
    out = []
    i = 0
    while i < len(text):
        if text[i:i + 2] in WIDE:
            out.append([WIDE[text[i:i + 2]], 2, 0, text[i:i + 2]])
            i += 2
            continue
        t = G.raw_tokens(text[i:])[0]
        n = len(t[3]) if t[0] != G.WS else t[1]
        out.append(t)
        i += n
    return out


def widen(r, rules):
    """turns some of the one-character tokens of a grammar into two-character ones"""
    def m(e):
        if isinstance(e, tuple):
            if e and e[0] == 'tok' and e[1] in (3, 4, 5, 6, 9) and r.random() < 0.25:
                return ('tok', r.choice(list(WIDE.values())))
            return tuple(m(x) for x in e)
        if isinstance(e, list):
            return [m(x) for x in e]
        return e
    return [m(x) for x in rules]


def byteoff(text):
    o = [0]
    for ch in text:
        o.append(o[-1] + len(ch.encode()))
    return o


def rand_edit(r, text, ins):
    """random edit (character positions): ops and the new text; kept ranges in increasing order"""
    n = len(text)
    k = r.choice([1, 1, 1, 2, 2, 3])
    pts = sorted(r.randrange(n + 1) for _ in range(2 * k))
    ops = []
    at = 0
    new = []

    def copy(a, b):
        if a < b:
            if b - a > 2 and r.random() < 0.1:
                m = r.randrange(a + 1, b)
                ops.append(["c", a, m])
                ops.append(["c", m, b])
            else:
                ops.append(["c", a, b])
            new.append(text[a:b])
    for i in range(k):
        a = pts[2 * i]
        x = r.random()
        b = a if x < 0.45 else min(pts[2 * i + 1], a + 1) if x < 0.7 else min(pts[2 * i + 1], a + r.choice([2, 4, 9]))
        if a < at:
            continue
        copy(at, a)
        at = b
        if b == a or r.random() < 0.5:
            s = ins(r)
            if s:
                ops.append(["i", s])
                new.append(s)
    copy(at, n)
    return ops, ''.join(new)


def to_bytes(text, ops):
    o = byteoff(text)
    return [["c", o[x[1]], o[x[2]]] if x[0] == "c" else x for x in ops]


def shared_grammar(r):
    """Cached rules used in different surroundings: inside and outside of layers, contexts, lookahead,
    replaceable nodes and operators, next to previous-node tests."""
    T = G.TOKS
    tok = lambda x: ('tok', T[x])
    ty = iter(range(G.NODE0 + 1, 59))
    n = lambda: next(ty)
    ctxs = r.sample([0, 1, 2, 5, 63, 64, 70], 2)
    until = ('rep', ('and', [('not', tok(')')), ('any',)], None))
    upto = ('and', [until, ('opt', tok(')'))], None)
    short = ('rep', ('or', [tok('('), tok('a'), tok('b')]))
    item_ty = [n(), n()]

    def body(other):
        """between the brackets of a cached rule"""
        fs = [tok(r.choice("ab")), ('pub', n(), tok(r.choice("abc")), False)]
        if other is not None:
            fs += [('rule', other)] * 2
        if r.random() < 0.5:
            fs.append(('and', [('isin', r.choice(ctxs)), ('pub', n(), tok('c'), False)], None))
        if r.random() < 0.4:
            fs.append(('pubrep', n(), tok(r.choice("cd"))))
        if r.random() < 0.3:
            fs.append(('pub', n(), ('and', [tok('*'), ('opt', ('pubrep', n(), tok('d')))], None), True))
        if r.random() < 0.2:
            fs.append(('enter', r.choice(ctxs), ('rule', other)) if other is not None else ('exit', ctxs[0], tok('d')))
        if r.random() < 0.3:
            fs.append(('and', [('not', ('pub', item_ty[0], tok('d'), False)), tok('+')], None))
        r.shuffle(fs)
        return ('and', [tok('('), ('rep', ('or', fs)), tok(')')], r.choice([None, None, 1, 2]))

    def cached(i, other):
        b = body(other)
        x = r.random()
        if x < 0.6:
            b = ('pub', item_ty[i - 1], b, False)
        elif x < 0.8:
            b = ('pubrep', item_ty[i - 1], b)
        return ('cached', b)

    def place(d):
        i = ('rule', r.choice([1, 1, 1, 2]))
        x = r.random()
        if d == 0 or x < 0.25:
            return i
        q = lambda: place(d - 1)
        if x < 0.45:
            return ('and', [('opt', tok('(')) if r.random() < 0.2 else tok(r.choice("a+")), ('layer', r.choice([until, upto, short, ('rep', ('rule', 1)), ('and', [('rule', 1), ('opt', tok('a'))], None)]), ('rep', q())), ('opt', tok(')'))], r.choice([None, 1]))
        if x < 0.6:
            return ('and', [tok(r.choice("bc")), (r.choice(['enter', 'enter', 'exit']), r.choice(ctxs), q())], r.choice([None, 1]))
        if x < 0.7:
            return ('and', [tok(r.choice("d*")), ('not', q()), ('rep', ('or', [tok('a'), tok('(')]))], None)
        if x < 0.85:
            return ('pub', n(), ('and', [('rep', q()) if r.random() < 0.3 else q(), ('opt', tok('a'))], None), True)
        return ('and', [q(), ('opt', ('pub', n(), ('and', [('prev', [r.choice(item_ty)]), tok(r.choice("ab"))], None), False))], None)

    after = ('pub', n(), ('and', [('prev', item_ty if r.random() < 0.5 else item_ty[:1]), tok(r.choice("abcd"))], None), False)
    forms = [place(2) for _ in range(r.choice([1, 2, 3]))] + ([after] if r.random() < 0.6 else []) + ([('rule', 1)] if r.random() < 0.5 else [])
    r.shuffle(forms)
    rest = r.choice([[tok('a')], [tok('a'), tok('d')], [('any',)], []])
    body0 = ('rep', ('or', forms + rest))
    if r.random() < 0.25:
        body0 = ('rep', ('skip', r.choice([tok(r.choice("(ab")), ('rule', 1)]), ('or', forms + rest)))
    rules = [('pub', G.NODE0, body0, False), cached(1, r.choice([None, 2])), cached(2, None)]
    G.check(rules)
    return rules


def shared(r):
    while True:
        try:
            return shared_grammar(r)
        except G.Bad:
            continue


def engine_part(rep, binary):
    rng = random.Random("C09-%d" % C.SEED)
    n_g, n_h = (260, 6) if not C.THOROUGH else (3000, 12)
    for wide in (False, True, None):
        raw = raw_wide if wide else G.raw_tokens
        cases = []
        n_cached = 0
        while len(cases) < n_g:
            rules = G.Gen(rng, 'C09').grammar() if wide is not None else shared(rng)
            if wide:
                rules = widen(rng, rules)
            if "'cached'" not in repr(rules):
                continue
            types = G.types_table()
            table = G.compile_rules(rules)
            spec = G.to_spec(table, types)
            S = G.Sent(rng, rules)
            ins = []
            for _ in range(n_h):
                t = S.text(0.15, 20)
                bad = lambda t: cost.steps(spec, cost.significant(raw(t)), E.LIMIT) is None
                if bad(t):
                    continue
                edits, after, cur = [], [], t
                for _ in range(3):
                    def some(r):
                        x = r.random()
                        if wide is None and x < 0.4:
                            return r.choice("aabcd+*()")
                        if x < 0.55:
                            return ''.join(r.choice("abcd()()+* #\n") for _ in range(r.choice([1, 1, 2, 3])))
                        if x < 0.62:
                            return '%'
                        return ''.join(S.tokens(6))
                    if rng.random() < 0.06:
                        ops, nt = ([["c", 0, len(cur)]] if cur else []), cur
                    else:
                        ops, nt = rand_edit(rng, cur, some)
                    if len(nt) > 40 or bad(nt):
                        break
                    edits.append(ops)
                    after.append(nt)
                    cur = nt
                if edits:
                    ins.append(dict(text=t, edits=edits, after=after))
            if ins:
                cases.append(dict(lang=dict(types=types, lex=WLEX if wide else G.LEX, rules=table, binder=rng.choice(E.BINDERS)), ins=ins))
        outs = C.run_cases(binary, "engine", cases)
        rep.add(grammars_with_cached_rules=len(cases), edits_on_generated_grammars=sum(len(i["edits"]) for c in cases for i in c["ins"]))
        if not E.judge(rep, cases, outs, "histories_wide" if wide else "histories" if wide is False else "histories_shared", raw=raw):
            return
        if not wide:
            rep.sample(dict(rules=cases[0]["lang"]["rules"], history=cases[0]["ins"][0]))


RUST_DOCS = [
    "fn f(x: i32) -> u8 { let y = x + 1; if y == 2 { return y } else { g(y, &mut x) } }\n",
    "struct S;\nstruct T { a: u8, b: Vec<S> }\nimpl T { fn new() -> T { T { a: 1, b: vec![] } } }\n",
    "use a::b::{c, d};\nextern crate foo;\n\n// comment\n/* block /* nested */ */\nmod m { pub fn x() {} struct Q(u8); }\n",
    "enum E { A, B(u8), C { x: u8 } }\n#[test]\npub fn t() { match x { E::A => 1, E::B(_) => { 2 } _ => 3 } }\n",
    "trait Tr: Foo { fn a(&self); fn b() { loop { break; } } }\nconst X: [u8; 3] = [1, 2, 3];\nstatic Y: &str = \"s{\\\"\";\n",
    "fn a() { if a {} struct S; while b { x.y(); } for i in z { (1, 2) } union; }\nfn g<T: A + B>(t: T) where T: C { t }\n",
    "impl<T> Tr for S<T> { type X = Y; fn f(&mut self) { self.x += 1; |a| a << 2 } }\n/// doc\nstruct D;\n",
    "fn x() { { struct I; } unsafe { y!() } let r = r#\"}\"#; \"}\"; a && b || c; }\nstruct Z;",
]
FALL_DOCS = [
    "tokenizer {\n  #[skip] whitespace r\"\\s+\"\n  a 'a'\n  num r\"\\d+\"\n}\n\npub rule file { item* }\nrule item { a | num }\n",
    "pub rule f { <with_skip a b>* }\n#[cached]\nrule g { 'x' <commit> {y | z}? }\nrule l(p) { <layer p {p ','}> }\nast { node f { g: g? } }\n",
    "rule a { b c | <not d> e }\nrule b { 'b' | <eof> }\n// c\ntest r\"\n a b\n\"\nverbatim r#\"fn x() {}\"#\nrule z {}",
    "#[pratt] rule expr { x | y }\n#[bin(1)] pub rule x { expr '+' expr }\n#[atom] pub rule y { <enter 'c' {<is_in 'c'> y}> }\nclass",
]
JSON_DOCS = ["{\"a\": [1, 2, {\"b\": null}], \"c\": true}", "[[], {}, {\"k\": \"v\"} , 12 ]", "{\"x\": }, [ 1 2"]
BNF_DOCS = ["S -> E\nE -> E '+' T | T\nT -> T '*' F | F\nF -> '(' E ')' | 'id'\n"]
SEXP_DOCS = ["(a (b c) ((d)) e) f (g)"]
ARITH_DOCS = ["1 + --1! - -2! * (3 + 4)"]
WEIRD_DOCS = ["_4 { foo { bar } r#\"x\"# }", "_3 foo bar", "_1 r##\"a\"#\"##"]
DOCS = dict(rust=RUST_DOCS, fall=FALL_DOCS, json=JSON_DOCS, bnf=BNF_DOCS, sexp=SEXP_DOCS, arith=ARITH_DOCS, weird=WEIRD_DOCS)

FRAGILE = {"rust": re.compile(r"('[\\\w{}]*|'[^']|r#*)$", re.S), "fall": re.compile(r"r#*$")}


def lookahead_safe(lang, text, ops, new):
    """No token that is kept was recognised by looking at text that the edit changes.

    The longest match of a few tokens (rust's char literals, raw strings) needs more than one
    character of lookahead past the end of a shorter token."""
    f = FRAGILE.get(lang)
    if f is None:
        return True
    for i, o in enumerate(ops):
        if o[0] == "c":
            if i + 1 == len(ops) and o[2] == len(text):
                continue
            if f.search(text[max(0, o[1] - 40):o[2]]):
                return False
    return True


def inserted(lang):
    import lex_checks
    frags = lex_checks.FRAGS[lang]

    def some(r):
        x = r.random()
        if x < 0.5:
            return r.choice(frags)
        if x < 0.75:
            return ''.join(r.choice(frags) + r.choice(["", " "]) for _ in range(r.choice([2, 3, 4])))
        d = r.choice(DOCS[lang])
        a = r.randrange(len(d))
        return d[a:a + r.choice([3, 10, 40])]
    return some


def shipped_part(rep, binary):
    rng = random.Random("C09s-%d" % C.SEED)
    per = dict(rust=1500, fall=700, json=200, bnf=120, sexp=120, arith=120, weird=120)
    cases = []
    skipped = 0
    for lang, n in per.items():
        some = inserted(lang)
        ins = []
        for _ in range(n * (12 if C.THOROUGH else 1)):
            docs = DOCS[lang]
            t = rng.choice(docs) if rng.random() < 0.7 else rng.choice(docs) + rng.choice(docs)
            if rng.random() < 0.2:
                t = t.replace("x", "\u00e9").replace("g", "\u03bbb")
            cur, edits = t, []
            for _ in range(rng.choice([1, 2, 4])):
                ops, nt = rand_edit(rng, cur, some)
                if not lookahead_safe(lang, cur, ops, nt) or re.search("#{28}", nt):
                    skipped += 1
                    continue
                edits.append(to_bytes(cur, ops))
                cur = nt
            ins.append(dict(text=t, edits=edits))
        for k in range(0, len(ins), 20):
            cases.append(dict(lang=lang, ins=ins[k:k + 20]))
    outs = C.run_cases(binary, "histories", cases)
    lines, meta = [], []
    b = lambda s: list(s.encode())
    for case, out in zip(cases, outs):
        for i, inp in enumerate(case["ins"]):
            o = out["outs"][i] if "outs" in out else dict(tree0=str(out), scratch0="crash", steps=[])
            txt = lambda x: x if isinstance(x, str) else json.dumps(x)
            steps = []
            for ops, s in zip(inp["edits"], o["steps"]):
                steps.append(dict(ops=[[x[0], x[1], x[2]] if x[0] == "c" else ["i", b(x[1])] for x in ops], text=b(s["text"]),
                                  tree=txt(s["tree"]), scratch=txt(s["scratch"])))
                if not isinstance(s["tree"], str):
                    steps[-1]["scratch"] = "no tree: " + steps[-1]["scratch"]
            lines.append(dict(text=b(inp["text"]), tree0=txt(o["tree0"]), scratch0=txt(o["scratch0"]), steps=steps))
            meta.append((case["lang"], inp, o))
    rep.add(shipped_histories=len(lines), shipped_edits=sum(len(l["steps"]) for l in lines), edits_left_out_for_lookahead=skipped)
    d = C.work("C09")
    path = os.path.join(d, "hist.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("HistTrace", env={"TRACE": path}, timeout=800, dirname=d, heap="8g"), "HistTrace")
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        c, k = int(st["c"]) - 1, int(st["k"])
        lang, inp, o = meta[c]
        rep.violation("%s: after edit %d the tree differs from parsing the text from scratch" % (lang, k),
                      dict(lang=lang, history=inp, edit=k, outcome=o))


def known_part(rep, binary):
    for x in rep.known:
        o = C.run_cases(binary, "histories", [dict(lang=x["lang"], ins=[dict(text=x["text"], edits=x["edits"])])])[0]
        s = o["outs"][0]["steps"][-1]
        if s["tree"] != s["scratch"]:
            rep.known_finding("%s %r edited by %s: tokens kept although their recognition looked at the changed text" % (x["lang"], x["text"], json.dumps(x["edits"])))


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    engine_part(rep, binary)
    shipped_part(rep, binary)
    known_part(rep, binary)
    rep.assumptions += ["cached rules of generated grammars are self-delimiting",
                        "edits that change text a kept token's recognition looked at (rust char literals and raw strings, fall raw strings) are left out; the divergence there is a listed known finding"]
    rep.finish()
