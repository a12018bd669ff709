"""Random well-formed grammars for fall's parser engine, sentences for them, and the translation of
fall_parse expression tables to the form the TLA+ specification reads."""
import random

# token types
WS, CMT = 1, 2
TOKS = {'a': 3, 'b': 4, 'c': 5, 'd': 6, '(': 7, ')': 8, '+': 9, '*': 10}
CTX0 = 11           # contextual token types 11..14
NODE0 = 20          # node types 20..
NTYPES = 60


def types_table():
    t = [[0, "ERROR", False], [WS, "WS", True], [CMT, "CMT", True]]
    names = {v: 'T' + str(v) for v in TOKS.values()}
    for i in range(3, NTYPES):
        t.append([i, names.get(i, "N%d" % i), False])
    return t


LEX = [[WS, r"[ \n]+", None], [CMT, r"#", None], [CMT, r"[abd*+]%", None]] + [[v, '\\' + k if not k.isalpha() else k, None] for k, v in TOKS.items()]


def raw_tokens(text):
    """The raw tokens of a text over the generated languages' alphabet: [ty, len, ws, txt]."""
    out = []
    i = 0
    while i < len(text):
        ch = text[i]
        if ch in ' \n':
            j = i
            while j < len(text) and text[j] in ' \n':
                j += 1
            out.append([WS, j - i, 1, " "])
            i = j
        elif ch == '#':
            out.append([CMT, 1, 1, "#"])
            i += 1
        elif text[i + 1:i + 2] == '%' and ch in 'abd*+':
            # a comment that begins like a token
            out.append([CMT, 2, 1, text[i:i + 2]])
            i += 2
        elif ch in TOKS:
            out.append([TOKS[ch], 1, 0, ch])
            i += 1
        else:
            # a maximal stretch without a valid token start
            j = i
            while j < len(text) and text[j] not in ' \n#' and text[j] not in TOKS:
                j += 1
            s = text[i:j]
            out.append([0, len(s.encode()), 0, s])
            i = j
    return out


# ---------------------------------------------------------------- translation

def compile_rules(rules):
    """AST rules -> fall_parse expression table (JSON), rule i at index i."""
    table = [None] * len(rules)

    def ref(e):
        if e[0] == 'rule':
            return e[1]
        table.append(None)
        i = len(table) - 1
        table[i] = conv(e)
        return i

    def conv(e):
        k = e[0]
        if k == 'pub':
            return {"Pub": {"ty": e[1], "body": ref(e[2]), "replaceable": e[3]}}
        if k == 'pubrep':
            return {"PubReplace": {"ty": e[1], "body": ref(e[2])}}
        if k == 'or':
            return {"Or": [ref(x) for x in e[1]]}
        if k == 'and':
            return {"And": [[ref(x) for x in e[1]], e[2]]}
        if k == 'tok':
            return {"Token": e[1]}
        if k == 'ctok':
            return {"ContextualToken": [e[1], e[2]]}
        if k == 'rep':
            return {"Rep": ref(e[1])}
        if k == 'opt':
            return {"Opt": ref(e[1])}
        if k == 'not':
            return {"Not": ref(e[1])}
        if k == 'eof':
            return "Eof"
        if k == 'any':
            return "Any"
        if k == 'layer':
            return {"Layer": [ref(e[1]), ref(e[2])]}
        if k == 'skip':
            return {"WithSkip": [ref(e[1]), ref(e[2])]}
        if k == 'enter':
            return {"Enter": [e[1], ref(e[2])]}
        if k == 'exit':
            return {"Exit": [e[1], ref(e[2])]}
        if k == 'isin':
            return {"IsIn": e[1]}
        if k == 'call':
            return {"Call": [e[1], [[i, ref(x)] for i, x in e[2]]]}
        if k == 'var':
            return {"Var": e[1]}
        if k == 'prev':
            return {"PrevIs": list(e[1])}
        if k == 'inject':
            return {"Inject": [ref(e[1]), ref(e[2])]}
        if k == 'cached':
            return {"Cached": ref(e[1])}
        if k == 'rule':
            # a rule that is just another rule: keep the indirection
            return {"Or": [e[1]]}
        if k == 'pratt':
            return {"Pratt": {
                "atoms": [ref(x) for x in e[1]],
                "prefixes": [{"ty": t, "op": ref(o), "priority": p} for t, o, p in e[2]],
                "infixes": [{"ty": t, "op": ref(o), "priority": p, "has_rhs": r} for t, o, p, r in e[3]]}}
        raise Exception(k)

    for i, r in enumerate(rules):
        table[i] = conv(r)
    return table


def to_spec(table, types):
    """fall_parse expression table -> records for the specification (1-based references)."""
    ty = lambda i: types[i][0]
    out = []
    for x in table:
        if x == "Eof":
            out.append(dict(k="eof"))
            continue
        if x == "Any":
            out.append(dict(k="any"))
            continue
        (k, v), = x.items()
        if k == "Pub":
            out.append(dict(k="pub", ty=ty(v["ty"]), b=v["body"] + 1, repl=v["replaceable"]))
        elif k == "PubReplace":
            out.append(dict(k="pubrep", ty=ty(v["ty"]), b=v["body"] + 1))
        elif k == "Or":
            out.append(dict(k="or", es=[i + 1 for i in v]))
        elif k == "And":
            c = v[1] if v[1] is not None else len(v[0])
            out.append({"k": "and", "es": [i + 1 for i in v[0]], "c": c})
        elif k == "Token":
            out.append(dict(k="tok", ty=ty(v)))
        elif k == "ContextualToken":
            out.append(dict(k="ctok", ty=ty(v[0]), txt=v[1]))
        elif k in ("Rep", "Opt", "Not", "Cached"):
            out.append(dict(k=k.lower(), b=v + 1))
        elif k == "WithSkip":
            out.append(dict(k="skip", a=v[0] + 1, b=v[1] + 1))
        elif k == "Layer":
            out.append(dict(k="layer", a=v[0] + 1, b=v[1] + 1))
        elif k == "Inject":
            out.append(dict(k="inject", a=v[0] + 1, b=v[1] + 1))
        elif k in ("Enter", "Exit"):
            out.append(dict(k=k.lower(), ctx=v[0], b=v[1] + 1))
        elif k == "IsIn":
            out.append(dict(k="isin", ctx=v))
        elif k == "Call":
            out.append(dict(k="call", b=v[0] + 1, args=[[a, e + 1] for a, e in v[1]]))
        elif k == "Var":
            out.append(dict(k="var", v=v))
        elif k == "PrevIs":
            out.append(dict(k="prev", tys=[ty(i) for i in v]))
        elif k == "Pratt":
            out.append({"k": "pratt", "atoms": [i + 1 for i in v["atoms"]],
                        "pre": [dict(ty=ty(p["ty"]), op=p["op"] + 1, prior=p["priority"]) for p in v["prefixes"]],
                        "inf": [dict(ty=ty(p["ty"]), op=p["op"] + 1, prior=p["priority"], rhs=p["has_rhs"]) for p in v["infixes"]]})
        else:
            raise Exception(k)
    return out


# ---------------------------------------------------------------- well-formedness

class Bad(Exception):
    pass


def kids(e):
    k = e[0]
    if k in ('pub', 'pubrep'):
        return [e[2]]
    if k in ('or', 'and'):
        return list(e[1])
    if k in ('rep', 'opt', 'not', 'cached'):
        return [e[1]]
    if k in ('layer', 'skip', 'inject'):
        return [e[1], e[2]]
    if k in ('enter', 'exit'):
        return [e[2]]
    if k == 'call':
        return [x for _, x in e[2]]
    if k == 'pratt':
        return list(e[1]) + [o for _, o, _ in e[2]] + [o for _, o, _, _ in e[3]]
    return []


def check(rules):
    """Raises Bad for left recursion or repetition of something that can match nothing."""
    n = len(rules)
    null = [False] * n

    def nullable(e):
        k = e[0]
        if k in ('tok', 'ctok', 'any'):
            return False
        if k in ('pub', 'pubrep'):
            return nullable(e[2])
        if k == 'or':
            return any(nullable(x) for x in e[1])
        if k == 'and':
            c = len(e[1]) if e[2] is None else e[2]
            return all(nullable(x) for x in e[1][:c])
        if k == 'layer':
            return nullable(e[1])
        if k == 'skip':
            return nullable(e[2])
        if k == 'cached':
            return nullable(e[1])
        if k == 'inject':
            return nullable(e[1]) and nullable(e[2])
        if k in ('enter', 'exit'):
            return nullable(e[2])
        if k == 'rule':
            return null[e[1]]
        if k == 'call':
            return null[e[1]]
        if k == 'pratt':
            return any(nullable(x) for x in e[1])
        return True   # rep opt not eof isin var prev

    changed = True
    while changed:
        changed = False
        for i in range(n):
            if not null[i] and nullable(rules[i]):
                null[i] = True
                changed = True

    def first(e, acc):
        """rules reachable from e before consuming anything"""
        k = e[0]
        if k in ('rule', 'call'):
            acc.add(e[1])
            if k == 'call':
                for _, x in e[2]:
                    first(x, acc)
        elif k == 'and':
            for x in e[1]:
                first(x, acc)
                if not nullable(x):
                    break
        elif k == 'inject':
            first(e[1], acc)
            if nullable(e[1]):
                first(e[2], acc)
        else:
            for x in kids(e):
                first(x, acc)
        return acc

    edges = [first(r, set()) for r in rules]
    # transitive closure
    for i in range(n):
        seen = set()
        todo = list(edges[i])
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            todo.extend(edges[j])
        if i in seen:
            raise Bad("left recursion")

    def walk(e):
        if e[0] == 'rep' and nullable(e[1]):
            raise Bad("nullable repetition")
        if e[0] == 'pratt':
            for o in [o for _, o, _ in e[2]] + [o for _, o, _, _ in e[3]]:
                if nullable(o):
                    raise Bad("nullable operator")
        for x in kids(e):
            walk(x)
    for r in rules:
        walk(r)
    return null


# ---------------------------------------------------------------- generation

class Gen:
    """focus: dict construct -> weight"""
    BASE = dict(tok=6, ctok=1, seq=5, alt=3, rep=1.5, opt=1.5, rule=4, any=0.3, eof=0.2)
    BASE['not'] = 0.7
    FOCUS = {
        'C02': dict(ctok=2.5, any=0.8, eof=0.6),
        'C03': dict(commit=3, layer=3, skip=3),
        'C04': dict(pratt=5),
        'C05': dict(ctx=4, call=4, prev=2, opt=2),
        'C06': dict(inject=4, replace=4, pratt=1),
        'C07': dict(commit=1, skip=1, inject=1, layer=1, ctok=1),
        'C09': dict(cached=4, commit=1, layer=0.5, skip=1, pratt=0.5, ctok=1, inject=0.5),
        'all': dict(commit=1.5, layer=1.5, skip=1.5, pratt=1, ctx=1.5, call=1.5, prev=1, inject=1.5, replace=1.5, cached=1),
    }

    def __init__(self, rng, focus):
        self.r = rng
        self.w = dict(Gen.BASE)
        self.w['not'] = 0.7
        self.w.update(Gen.FOCUS.get(focus, {}))
        self.focus = focus
        self.next_ty = NODE0

    def ty(self):
        t = self.next_ty
        self.next_ty += 1
        if t >= NTYPES:
            raise Bad("types")
        return t

    def tok(self, extra=True):
        return ('tok', TOKS[self.r.choice('abcd()' if extra else 'abcd')])

    def ctok(self):
        txt, ty = self.r.choice([("ab", CTX0), ("aa", CTX0 + 1), ("a", CTX0 + 2), ("abc", CTX0 + 3), ("++", CTX0 + 1), ("(", CTX0 + 2)])
        return ('ctok', ty, txt)

    def pick(self, opts):
        tot = sum(w for _, w in opts)
        x = self.r.random() * tot
        for o, w in opts:
            x -= w
            if x <= 0:
                return o
        return opts[-1][0]

    def expr(self, d, vars=0, lead=True):
        """lead: may be matched at a position where nothing was consumed since the rule began."""
        w = self.w
        if d <= 0:
            opts = [('tok', w['tok']), ('ctok', w.get('ctok', 0)), ('any', w.get('any', 0)), ('eof', w.get('eof', 0)), ('rule', w.get('rule', 0) / 2)]
        else:
            opts = [(k, v) for k, v in w.items()]
        if vars:
            opts.append(('var', 6))
        k = self.pick(opts)
        e = lambda lead=lead: self.expr(d - 1, vars, lead)
        if k == 'tok':
            return self.tok()
        if k == 'ctok':
            return self.ctok()
        if k in ('any', 'eof'):
            return (k,)
        if k == 'var':
            return ('var', self.r.randrange(vars))
        if k == 'seq' or k == 'commit':
            n = self.r.choice([2, 2, 3, 3, 4])
            parts = []
            l = lead
            for i in range(n):
                x = self.expr(d - 1, vars, l) if not (i == 0 and self.r.random() < 0.5) else self.tok()
                parts.append(x)
                if x[0] in ('tok', 'ctok', 'any'):
                    l = False
            c = self.r.randrange(1, n + 1) if k == 'commit' else None
            return ('and', parts, c)
        if k == 'alt':
            return ('or', [e() for _ in range(self.r.choice([2, 2, 3]))])
        if k == 'rep':
            return ('rep', e())
        if k == 'opt':
            return ('opt', e())
        if k == 'not':
            return ('not', e())
        if k == 'rule':
            return self.ruleref(lead)
        if k == 'layer':
            return self.layer(d, vars, lead)
        if k == 'skip':
            return ('skip', self.r.choice([self.tok(), e(), ('or', [self.tok(), self.tok()])]), e())
        if k == 'ctx':
            c = self.r.randrange(2)
            x = self.r.random()
            if x < 0.35:
                return ('enter', c, e())
            if x < 0.6:
                return ('exit', c, e())
            if x < 0.85:
                return ('and', [('isin', c), e()], None)
            return ('or', [('and', [('isin', c), e()], None), ('and', [('not', ('isin', c)), e()], None)])
        if k == 'prev':
            tys = [t for t in (self.r.randrange(NODE0, NODE0 + 8) for _ in range(2))]
            p = ('prev', tys)
            return self.r.choice([('and', [e(), p], None), ('and', [p, e()], None), ('and', [('opt', e()), ('not', p), self.tok()], None)])
        if k == 'call' and self.params:
            r = self.r.choice([i for i in self.params])
            args = [(i, self.arg(d, vars)) for i in range(self.params[r])]
            c = ('call', r, args)
            if lead and self.r.random() < 0.5:
                return ('and', [self.tok(), c], None)
            return c
        if k == 'inject':
            return self.inject(d, vars, lead)
        if k == 'replace':
            return ('pub', self.ty(), self.replaced(d, vars, lead), True)
        if k == 'cached':
            return self.cached(d)
        if k == 'pratt':
            return self.pratt(d)
        return self.tok()

    def arg(self, d, vars):
        if vars and self.r.random() < 0.5:
            return ('var', self.r.randrange(vars))
        x = self.r.random()
        if x < 0.4:
            return self.tok()
        if x < 0.7:
            return self.ruleref(True)
        return self.expr(max(0, d - 1), vars if self.r.random() < 0.7 else 0, True)

    def ruleref(self, lead):
        plain = [i for i in range(1, self.n) if i not in self.params and (not lead or i > self.cur)]
        if not plain:
            return self.tok()
        return ('rule', self.r.choice(plain))

    def layer(self, d, vars, lead):
        # '(' <layer {not ')' any}* body> ')' and less regular ones
        inner = self.expr(d - 1, vars, True)
        x = self.r.random()
        if x < 0.6:
            ext = ('rep', ('and', [('not', ('tok', TOKS[')'])), ('any',)], None))
            close = self.r.choice([('tok', TOKS[')']), ('opt', ('tok', TOKS[')']))])
            return ('and', [('tok', TOKS['(']), ('layer', ext, inner), close], self.r.choice([1, None, 2]))
        if x < 0.85:
            ext = ('rep', self.r.choice([self.tok(), ('or', [self.tok(), self.tok()])]))
            return ('layer', ext, inner)
        return ('layer', self.expr(d - 1, vars, lead), inner)

    def node(self, d):
        """something that always yields one plain node first"""
        return ('pub', self.ty(), self.expr(max(0, d - 1), 0, True), False)

    def inject(self, d, vars, lead):
        pubs = [i for i in range(1, self.n) if self.kind.get(i) == 'pub' and (not lead or i > self.cur)]
        def small():
            return ('pub', self.ty(), ('and', [self.tok(), ('opt', self.tok())], None), False)
        x = self.r.random()
        p = small()
        pre = ('rep', p) if x < 0.35 else ('opt', p) if x < 0.6 else ('and', [('rep', p), ('opt', small())], None) if x < 0.85 else p
        bods = []
        for _ in range(self.r.choice([1, 2, 3])):
            y = self.r.random()
            if pubs and y < 0.4:
                bods.append(('rule', self.r.choice(pubs)))
            elif y < 0.6 and self.w.get('pratt'):
                bods.append(self.pratt(d))
            elif y < 0.7:
                bods.append(('inject', ('opt', small()), small()))
            elif y < 0.8:
                bods.append(('and', [self.node(d), self.tok()], None))
            else:
                bods.append(self.node(d))
        return ('inject', pre, bods[0] if len(bods) == 1 else ('or', bods))

    def replaced(self, d, vars, lead):
        r = ('pubrep', self.ty(), self.expr(d - 1, vars, lead))
        x = self.r.random()
        if x < 0.4:
            return ('or', [r, ('pubrep', self.ty(), self.expr(d - 1, vars, lead)), self.expr(d - 1, vars, lead)])
        if x < 0.7:
            return ('and', [self.expr(d - 1, vars, lead), ('opt', r)], None)
        return ('or', [('and', [r, self.expr(d - 1, vars, False)], None), self.expr(d - 1, vars, lead)])

    def cached(self, d):
        """self-delimiting: ( ... ) without looking outside, no contexts, parameters, previous-node tests"""
        save = self.w
        self.w = {k: v for k, v in save.items() if k not in ('ctx', 'call', 'prev', 'layer', 'skip', 'not', 'eof', 'any', 'cached', 'inject', 'pratt', 'rule')}
        self.w['tok'] = 5
        def inner(dd):
            x = self.expr(dd, 0, False)
            return x
        body = [('rep', ('or', [self.tok(False), ('pub', self.ty(), ('and', [self.tok(False), ('opt', self.tok(False))], None), False)]))]
        if self.r.random() < 0.4:
            body = [strip_parens(inner(2))]
        if self.r.random() < 0.4:
            body.append(('opt', self.cached(d - 1)) if d > 0 else ('opt', self.tok(False)))
        self.w = save
        e = ('and', [('tok', TOKS['('])] + body + [('tok', TOKS[')'])], self.r.choice([None, 1]))
        if self.r.random() < 0.7:
            e = ('pub', self.ty(), e, False)
        return ('cached', e)

    def pratt(self, d):
        r = self.r
        atoms = [('pub', self.ty(), ('tok', TOKS['a']), False)]
        if r.random() < 0.5:
            atoms.append(('pub', self.ty(), ('and', [('tok', TOKS['b']), ('opt', ('tok', TOKS['c']))], None), False))
        if r.random() < 0.3:
            # parenthesised whole expression
            if self.kind.get('prattrule') is not None:
                atoms.append(('pub', self.ty(), ('and', [('tok', TOKS['(']), ('rule', self.kind['prattrule']), ('tok', TOKS[')'])], r.choice([None, 1, 2])), False))
        ops = ['+', '*', 'c', 'd', 'b', '(']
        def op():
            x = r.random()
            if x < 0.6:
                return ('tok', TOKS[r.choice(ops)])
            if x < 0.75:
                return ('ctok', CTX0 + 1, r.choice(["++", "+*", "cd"]))
            if x < 0.85:
                return ('and', [('tok', TOKS['(']), ('opt', ('pub', self.ty(), ('tok', TOKS['a']), False)), ('tok', TOKS[')'])], r.choice([None, 1]))
            if x < 0.93:
                return ('or', [('tok', TOKS[r.choice(ops)]), ('tok', TOKS[r.choice(ops)])])
            return ('and', [('tok', TOKS[r.choice(ops)]), ('not', ('tok', TOKS[r.choice(ops)]))], None)
        prior = lambda: r.choice([0, 1, 1, 2, 2, 3, 5, 999])
        pre = [(self.ty(), op(), prior()) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        inf = [(self.ty(), op(), prior(), r.random() < 0.75) for _ in range(r.choice([1, 2, 3, 3, 4]))]
        return ('pratt', atoms, pre, inf)

    def grammar(self):
        r = self.r
        for _ in range(400):
            try:
                return self.attempt()
            except Bad:
                continue
        raise Exception("no grammar found")

    def attempt(self):
        r = self.r
        self.next_ty = NODE0
        self.n = n = r.choice([2, 3, 3, 4, 5])
        self.params = {}
        self.kind = {}
        if self.w.get('call'):
            for i in range(1, n):
                if r.random() < (0.65 if self.focus == 'C05' else 0.4):
                    self.params[i] = r.choice([1, 2, 2, 3]) if self.focus == 'C05' else r.choice([1, 1, 2])
        for i in range(1, n):
            self.kind[i] = 'pub' if r.random() < 0.7 else 'rule'
            if i in self.params:
                self.kind[i] = 'param'
        pr = None
        if self.w.get('pratt') and r.random() < 0.8:
            pr = r.randrange(1, n)
            if pr in self.params:
                pr = None
            else:
                self.kind[pr] = 'pratt'
                self.kind['prattrule'] = pr
        rules = []
        self.cur = 0
        file_ty = self.ty()
        body = self.expr(3, 0, True)
        if r.random() < 0.6:
            body = ('rep', body) if r.random() < 0.6 else ('and', [body, ('rep', self.expr(2, 0, True))], None)
        if pr is not None and r.random() < 0.7:
            body = r.choice([('rule', pr), ('rep', ('rule', pr)), ('rep', ('and', [('rule', pr), ('tok', TOKS['d'])], 1)), ('or', [('and', [('rule', pr), ('eof',)], None), body])])
        rules.append(('pub', file_ty, body, False))
        for i in range(1, n):
            self.cur = i
            k = self.kind[i]
            if k == 'pratt':
                rules.append(self.pratt(2))
            elif k == 'pub':
                rules.append(('pub', self.ty(), self.expr(r.choice([1, 2, 3]), 0, True), False))
            elif k == 'param':
                rules.append(self.expr(r.choice([1, 2, 3]), self.params[i], True))
                if r.random() < 0.5:
                    # hands its own parameters on, exchanged or repeated, to itself or another rule
                    to = r.choice([i, r.choice(list(self.params))])
                    k = self.params[i]
                    args = [(q, ('var', r.randrange(k)) if r.random() < 0.6 else ('and', [('var', r.randrange(k)), self.tok()], None) if r.random() < 0.6 else self.tok()) for q in range(self.params[to])]
                    r.shuffle(args)
                    c = ('call', to, args)
                    rest = [('var', r.randrange(k))] if r.random() < 0.5 else []
                    rules[-1] = ('and', [self.tok() if r.random() < 0.5 else ('var', r.randrange(k)), self.tok(), ('opt', c) if r.random() < 0.8 else c] + rest, r.choice([None, None, 2]))
                if r.random() < 0.5:
                    rules[-1] = ('pub', self.ty(), rules[-1], False)
            else:
                rules.append(self.expr(r.choice([1, 2, 3]), 0, True))
        check(rules)
        return rules


def renumber(rng, rules):
    """the same grammar with other numbers for contexts and parameters (per rule, as the generator
    of parsers gives them, or shared between rules), possibly large ones"""
    top = rng.choice([2, 8, 20, 60])
    ctx = rng.sample(range(top), 2)
    shared = rng.random() < 0.3
    nums = {}
    free = list(range(3 * len(rules) + top))
    rng.shuffle(free)

    def par(rule, v):
        key = (0 if shared else rule, v)
        if key not in nums:
            nums[key] = free.pop()
        return nums[key]

    def m(e, rule):
        if isinstance(e, list):
            return [m(x, rule) for x in e]
        if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
            return tuple(m(x, rule) for x in e) if isinstance(e, tuple) else e
        if e[0] in ('enter', 'exit'):
            return (e[0], ctx[e[1]], m(e[2], rule))
        if e[0] == 'isin':
            return ('isin', ctx[e[1]])
        if e[0] == 'var':
            return ('var', par(rule, e[1]))
        if e[0] == 'call':
            return ('call', e[1], [(par(e[1], i), m(x, rule)) for i, x in e[2]])
        return tuple([e[0]] + [m(x, rule) for x in e[1:]])
    return [m(x, i) for i, x in enumerate(rules)]


def strip_parens(e):
    """replace parenthesis tokens inside a self-delimiting body by other tokens"""
    if e[0] == 'tok' and e[1] in (TOKS['('], TOKS[')']):
        return ('tok', TOKS['c'])
    if e[0] == 'ctok' and ('(' in e[2]):
        return ('tok', TOKS['d'])
    if e[0] == 'any':
        return ('tok', TOKS['b'])
    def m(x):
        if isinstance(x, tuple):
            return strip_parens(x) if x and isinstance(x[0], str) else x
        if isinstance(x, list):
            return [m(y) for y in x]
        return x
    return tuple([e[0]] + [m(x) for x in e[1:]])


# ---------------------------------------------------------------- sentences

CH = {v: k for k, v in TOKS.items()}


class Sent:
    def __init__(self, rng, rules):
        self.r = rng
        self.rules = rules
        self.budget = 0

    def gen(self, e, args=None, depth=0):
        """token strings for something e is likely to match"""
        self.budget -= 1
        if self.budget < 0 or depth > 40:
            return []
        r = self.r
        k = e[0]
        g = lambda x: self.gen(x, args, depth + 1)
        if k == 'tok':
            return [CH.get(e[1], 'a')]
        if k == 'ctok':
            return list(e[2])
        if k == 'any':
            return [r.choice('abcd')]
        if k in ('pub', 'pubrep'):
            return g(e[2])
        if k == 'or':
            return g(r.choice(e[1]))
        if k == 'and':
            parts = e[1]
            if e[2] is not None and r.random() < 0.3:
                parts = parts[:max(e[2], r.randrange(len(parts) + 1))]
            out = []
            for x in parts:
                out += g(x)
            return out
        if k == 'rep':
            out = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                out += g(e[1])
            return out
        if k == 'opt':
            return g(e[1]) if r.random() < 0.6 else []
        if k in ('not', 'eof', 'isin', 'prev'):
            return []
        if k == 'layer':
            return g(e[2]) + (g(e[1]) if r.random() < 0.3 else []) if r.random() < 0.8 else g(e[1])
        if k == 'skip':
            pre = [r.choice('abcd') for _ in range(r.choice([0, 0, 1, 2]))]
            return pre + g(e[2])
        if k in ('enter', 'exit'):
            return g(e[2])
        if k == 'rule':
            return self.gen(self.rules[e[1]], None, depth + 1)
        if k == 'call':
            new = {}
            for i, x in e[2]:
                if x[0] == 'var':
                    new[i] = (args or {}).get(x[1], (('tok', 3), None))
                else:
                    new[i] = (x, args)
            return self.gen(self.rules[e[1]], new, depth + 1)
        if k == 'var':
            x, a = (args or {}).get(e[1], (('tok', 3), None))
            return self.gen(x, a, depth + 1)
        if k == 'inject':
            return g(e[1]) + g(e[2])
        if k == 'cached':
            return g(e[1])
        if k == 'pratt':
            out = []
            if e[2] and r.random() < 0.4:
                out += g(r.choice(e[2])[1])
            out += g(r.choice(e[1]))
            for _ in range(r.choice([0, 1, 2, 3, 4])):
                o = r.choice(e[3])
                out += g(o[1])
                if o[3]:
                    if e[2] and r.random() < 0.3:
                        out += g(r.choice(e[2])[1])
                    if r.random() < 0.93:
                        out += g(r.choice(e[1]))
            return out
        return []

    def tokens(self, maxlen=24):
        self.budget = 120
        ts = self.gen(self.rules[0])[:maxlen]
        r = self.r
        alphabet = 'abcd()+*'
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            if r.random() < 0.4 and ts:
                del ts[r.randrange(len(ts))]
            elif r.random() < 0.5 and ts:
                ts[r.randrange(len(ts))] = r.choice(alphabet)
            else:
                ts.insert(r.randrange(len(ts) + 1), r.choice(alphabet + ('%' if r.random() < 0.1 else '')))
        return ts

    def text(self, spaces=0.25, maxlen=24):
        ts = self.tokens(maxlen)
        return self.spaced(ts, spaces)

    def spaced(self, ts, spaces=0.25):
        r = self.r
        sep = [' ', ' ', '\n', '#', ' #', '# ', '##', ' # ', '\n# #\n', '  ', ' #  #', 'b%', '+%', 'a%']
        out = []
        for t in ts:
            if r.random() < spaces:
                out.append(r.choice(sep))
            out.append(t)
        if r.random() < spaces:
            out.append(r.choice(sep))
        return ''.join(out)
