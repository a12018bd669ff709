"""Small-scope grammars: expressions over a few constructs, every one of a small size and a uniform
sample of larger ones, each with every short text.  The families put the constructs a property is
about next to those they interact with."""
import itertools
import grammar as G
from grammar import NODE0, CTX0, TOKS

A, B = ('tok', TOKS['a']), ('tok', TOKS['b'])
T = 'T'      # placeholders: a node type, a list of node types

LEAF = {
    'a': A, 'b': B, 'any': ('any',), 'eof': ('eof',),
    'ab': ('ctok', CTX0, 'ab'), 'aa': ('ctok', CTX0 + 1, 'aa'),
    'isin': ('isin', 0), 'isin1': ('isin', 1), 'prev': ('prev', T),
    'v0': ('var', 0), 'v1': ('var', 1), 'r1': ('rule', 1), 'r2': ('rule', 2),
    'na': ('pub', T, A, False), 'nb': ('pub', T, B, False),
    # a small operator expression: a + b with a prefix -, atoms that may carry an injected prefix
    'ops': ('pratt', [('pub', T, A, False)], [], [(T, B, 1, True)]),
    'opsp': ('pratt', [('pub', T, A, False)], [(T, B, 1)], [(T, ('ctok', CTX0, 'ab'), 1, False)]),
    'opsi': ('pratt', [('inject', ('opt', ('pub', T, B, False)), ('pub', T, A, False))], [], [(T, B, 1, True), (T, ('ctok', CTX0, 'ab'), 2, False)]),
}
UN = {
    'opt': lambda x: ('opt', x), 'rep': lambda x: ('rep', x), 'not': lambda x: ('not', x),
    'pub': lambda x: ('pub', T, x, False), 'repl': lambda x: ('pub', T, x, True), 'by': lambda x: ('pubrep', T, x),
    'enter': lambda x: ('enter', 0, x), 'exit': lambda x: ('exit', 0, x), 'enter1': lambda x: ('enter', 1, x),
    'call1': lambda x: ('call', 1, [(0, x)]), 'cached': lambda x: ('cached', x),
}
BIN = {
    'seq': lambda x, y: ('and', [x, y], None), 'commit1': lambda x, y: ('and', [x, y], 1), 'commit0': lambda x, y: ('and', [x, y], 0),
    'or': lambda x, y: ('or', [x, y]), 'layer': lambda x, y: ('layer', x, y), 'skip': lambda x, y: ('skip', x, y),
    'inject': lambda x, y: ('inject', x, y), 'call': lambda x, y: ('call', 1, [(0, x), (1, y)]),
    'callx': lambda x, y: ('call', 1, [(1, x), (0, y)]),
}
TRI = {
    'seq3': lambda x, y, z: ('and', [x, y, z], None), 'commit3': lambda x, y, z: ('and', [x, y, z], 1),
    'commit32': lambda x, y, z: ('and', [x, y, z], 2), 'or3': lambda x, y, z: ('or', [x, y, z]),
}

# family: one list of constructs per rule; the first is the start rule's body
FAMILIES = {
    'C02': [
        ('plain', ['a b ab any eof opt rep not pub seq or seq3'.split()]),
        ('rules', ['a b r1 opt pub seq or'.split(), 'a b ab not opt rep pub seq or'.split()]),
    ],
    'C03': [
        ('commit', ['a b na opt rep pub seq commit1 commit32 or not'.split()]),
        ('commit0', ['a b na opt pub commit0 commit1 or not'.split()]),
        ('layer', ['a b ab aa any rep opt layer pub seq or commit1'.split()]),
        ('skip', ['a b na nb opt skip pub or seq rep commit1'.split()]),
        ('all', ['a b ab any eof rep not skip layer commit1 commit3 seq or pub'.split()]),
    ],
    'C05': [
        ('contexts', ['a b isin enter exit opt not pub seq or'.split()]),
        ('contexts2', ['a b isin isin1 enter enter1 exit rep not seq or commit1'.split()]),
        ('prev', ['a b na nb prev opt not pub seq or'.split()]),
        ('prevops', ['a na ops opsp opsi prev opt not seq or'.split()]),
        ('calls', ['a b call callx seq or pub'.split(), 'a v0 v1 opt seq or pub call callx'.split()]),
        ('callctx', ['a b isin call1 enter exit seq or'.split(), 'a b v0 isin enter exit opt not seq or pub'.split()]),
        ('calls2', ['a b call seq or'.split(), 'v0 v1 r2 opt seq or not pub'.split(), 'a b isin call pub seq or'.split()]),
    ],
    'C06': [
        ('inject', ['na nb a b opt rep inject pub seq or'.split()]),
        ('injectops', ['na a b ops opsi opt inject seq pub or'.split()]),
        ('replace', ['a b repl by opt seq or pub not rep'.split()]),
        ('both', ['na nb a ops repl by inject opt seq or not'.split()]),
    ],
    'C07': [
        ('nodes', ['a b na ab pub opt rep seq or commit1 inject'.split()]),
        ('errors', ['a b na skip layer pub seq commit1 rep not'.split()]),
    ],
    'all': [
        ('everything', ['a b ab any eof na ops opsp opt rep not pub repl by enter exit isin prev seq commit1 or layer skip inject cached call1'.split(), 'a v0 isin prev opt not pub by seq or enter rep'.split()]),
    ],
}


class Family:
    def __init__(self, names):
        self.leaf = [LEAF[n] for n in names if n in LEAF]
        self.un = [UN[n] for n in names if n in UN]
        self.bin = [BIN[n] for n in names if n in BIN]
        self.tri = [TRI[n] for n in names if n in TRI]
        self.counts = {0: 0}

    def count(self, n):
        if n not in self.counts:
            if n == 1:
                c = len(self.leaf)
            else:
                c = len(self.un) * self.count(n - 1)
                c += len(self.bin) * sum(self.count(i) * self.count(n - 1 - i) for i in range(1, n - 1))
                c += len(self.tri) * sum(self.count(i) * self.count(j) * self.count(n - 1 - i - j) for i in range(1, n - 2) for j in range(1, n - 1 - i))
            self.counts[n] = c
        return self.counts[n]

    def all(self, n):
        if n == 1:
            yield from self.leaf
            return
        for f in self.un:
            for x in self.all(n - 1):
                yield f(x)
        for i in range(1, n - 1):
            for f in self.bin:
                for x in self.all(i):
                    for y in self.all(n - 1 - i):
                        yield f(x, y)
        for i in range(1, n - 2):
            for j in range(1, n - 1 - i):
                for f in self.tri:
                    for x in self.all(i):
                        for y in self.all(j):
                            for z in self.all(n - 1 - i - j):
                                yield f(x, y, z)

    def sample(self, r, n):
        """uniform among the expressions of size n"""
        if n == 1:
            return r.choice(self.leaf)
        k = r.randrange(self.count(n))
        m = len(self.un) * self.count(n - 1)
        if k < m:
            return r.choice(self.un)(self.sample(r, n - 1))
        k -= m
        for i in range(1, n - 1):
            m = len(self.bin) * self.count(i) * self.count(n - 1 - i)
            if k < m:
                return r.choice(self.bin)(self.sample(r, i), self.sample(r, n - 1 - i))
            k -= m
        for i in range(1, n - 2):
            for j in range(1, n - 1 - i):
                m = len(self.tri) * self.count(i) * self.count(j) * self.count(n - 1 - i - j)
                if k < m:
                    return r.choice(self.tri)(self.sample(r, i), self.sample(r, j), self.sample(r, n - 1 - i - j))
                k -= m
        raise Exception("count")


def fill(r, e):
    """node types: few, so that previous-node tests and replacements meet their own kind"""
    if e is T:
        return NODE0 + 1 + r.randrange(3)
    if isinstance(e, tuple):
        if e and e[0] == 'prev':
            return ('prev', sorted(r.sample([NODE0 + 1, NODE0 + 2, NODE0 + 3], r.choice([1, 1, 2]))))
        return tuple(fill(r, x) for x in e)
    if isinstance(e, list):
        return [fill(r, x) for x in e]
    return e


def head_node(e, rules, seen=()):
    """the first thing e puts into the tree, if anything, is a node"""
    k = e[0]
    h = lambda x: head_node(x, rules, seen)
    if k in ('tok', 'ctok', 'any', 'var', 'call', 'skip'):
        return False
    if k == 'pub':
        return True
    if k == 'rule':
        return e[1] not in seen and head_node(rules[e[1]], rules, seen + (e[1],))
    if k == 'or':
        return all(h(x) for x in e[1])
    if k == 'and':
        for x in e[1]:
            if not h(x):
                return False
            if sure(x, rules, seen):
                return True
        return True
    if k == 'cached':
        return False
    if k in ('opt', 'rep', 'pubrep'):
        return h(e[1] if k != 'pubrep' else e[2])
    if k in ('enter', 'exit', 'layer'):
        return h(e[2])
    if k == 'inject':
        return h(e[1]) and h(e[2])
    if k == 'pratt':
        return all(h(x) for x in e[1])
    return True      # tests put nothing


def sure(e, rules, seen=()):
    """e, when it matches, puts at least one thing into the tree"""
    k = e[0]
    s = lambda x: sure(x, rules, seen)
    if k in ('tok', 'ctok', 'any', 'pub'):
        return True
    if k == 'rule':
        return e[1] not in seen and sure(rules[e[1]], rules, seen + (e[1],))
    if k == 'or':
        return all(s(x) for x in e[1])
    if k == 'and':
        return any(s(x) for x in e[1][:len(e[1]) if e[2] is None else e[2]])
    if k == 'cached':
        return s(e[1])
    if k in ('pubrep', 'enter', 'exit', 'skip'):
        return s(e[2])
    if k == 'inject':
        return s(e[1]) or s(e[2])
    if k == 'pratt':
        return all(s(x) for x in e[1])
    return False


def sound(rules):
    def walk(e):
        if e[0] == 'inject' and not (head_node(e[1], rules) and head_node(e[2], rules) and sure(e[2], rules)):
            return False
        if e[0] == 'cached':
            return e[1][0] == 'pub' and G.kids(e[1])[0][0] in ('tok', 'ctok')
        return all(walk(x) for x in G.kids(e))
    try:
        G.check(rules)
    except G.Bad:
        return False
    return all(walk(x) for x in rules)


def texts(alphabet, n):
    return [''.join(p) for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]


def grammars(r, prop, n_random, exhaustive, sizes):
    """-> [(family, rules)]; every expression up to the size `exhaustive` in single-rule families"""
    out, seen = [], set()

    def put(fam, bodies):
        rules = [fill(r, ('pub', NODE0, bodies[0], False))] + [fill(r, b) for b in bodies[1:]]
        key = repr(rules)
        if key not in seen and sound(rules):
            seen.add(key)
            out.append((fam, rules))
            return True
        return False
    n_ex = 0
    fams = FAMILIES[prop] + FAMILIES['all'] if prop != 'all' else FAMILIES['all']
    for fam, alph in fams:
        fs = [Family(a) for a in alph]
        if len(fs) == 1 and fam != 'everything':
            for n in range(1, exhaustive + 1):
                for e in fs[0].all(n):
                    put(fam, [e])
            n_ex = len(out)
        got = 0
        tries = 0
        while got < n_random and tries < 60 * n_random:
            tries += 1
            sz = [r.choice([s for s in (sizes if i == 0 else range(1, 7)) if f.count(s)]) for i, f in enumerate(fs)]
            if put(fam, [f.sample(r, n) for f, n in zip(fs, sz)]):
                got += 1
    return out


def pratt_tables(r, n):
    """small operator tables: one or two atoms, up to two prefix and three other operators, priorities 0..2"""
    out, seen = [], set()
    ops = ['a', 'b', '+', '*']
    while len(out) < n:
        atoms = [('pub', NODE0 + 1, ('tok', TOKS['a']), False)]
        if r.random() < 0.2:
            atoms = [('inject', ('opt', ('pub', NODE0 + 10, ('tok', TOKS['b']), False)), atoms[0])]
        if r.random() < 0.25:
            atoms.append(('pub', NODE0 + 2, ('and', [B, ('opt', A)], None), False))
        pre = [(NODE0 + 3 + i, ('tok', TOKS[r.choice('+*b')]), r.randrange(4)) for i in range(r.choice([0, 1, 1, 2]))]
        inf = [(NODE0 + 5 + i, ('tok', TOKS[r.choice('+*b(')]), r.randrange(4), r.random() < 0.7) for i in range(r.choice([1, 1, 2, 3]))]
        p = ('pratt', atoms, pre, inf)
        x = r.random()
        body = p if x < 0.4 else ('rep', p) if x < 0.5 else ('and', [p, ('opt', ('tok', TOKS['*']))], None) if x < 0.65 else \
            ('and', [('opt', ('and', [p, ('tok', TOKS['c'])], None)), ('opt', p)], None) if x < 0.75 else ('layer', ('rep', ('or', [('tok', TOKS[c]) for c in 'a+b'])), p) if x < 0.85 \
            else ('and', [('not', ('and', [p, ('tok', TOKS['c'])], None)), p, ('opt', ('prev', [NODE0 + r.randrange(3, 8)]))], None)
        body = body if x < 0.92 else ('and', [p, ('prev', [NODE0 + r.randrange(1, 8)]), ('opt', ('pub', NODE0 + 9, ('any',), False))], None)
        if r.random() < 0.08:
            body = ('inject', ('opt', ('pub', NODE0 + 11, ('tok', TOKS['c']), False)), p)
        rules = [('pub', NODE0, body, False)]
        k = repr(rules)
        if k not in seen:
            seen.add(k)
            try:
                G.check(rules)
            except G.Bad:
                continue
            out.append(('pratt', rules))
    return out


def cases(r, prop, n_random, exhaustive, sizes, maxlen, per=None, binders=("none",)):
    gs = grammars(r, prop, n_random, exhaustive, sizes) if prop != 'C04' else pratt_tables(r, n_random) + grammars(r, 'all', n_random // 4, 0, sizes)
    types = G.types_table()
    ab = texts("ab", maxlen)
    abc = texts("ab(", min(maxlen, 3)) + [''.join(r.choice("ab+*(") for _ in range(4)) for _ in range(5)]
    out = []
    for fam, rules in gs:
        ts = list(ab)
        if fam == 'pratt':
            ts = [''.join(r.choice("aaab+*(") for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 8]))) for _ in range(10)]
            ops = [G.CH[o[1][1]] for o in rules_pratt(rules)[2] + rules_pratt(rules)[3]]
            for _ in range(14):
                s = ''
                for _ in range(r.choice([1, 2, 3, 4])):
                    s += r.choice(["", "", r.choice(ops)]) + "a" + r.choice(ops)
                ts.append(s + r.choice(["a", "", "a" + r.choice(ops)]))
        if per and len(ts) > per:
            ts = ts[:7] + r.sample(ts[7:], per - 7)
        extra = []
        for t in r.sample(ts, min(len(ts), 4)):
            if len(t) > 1:
                i = r.randrange(1, len(t))
                extra.append(t[:i] + r.choice([" ", "#", " # "]) + t[i:])
        out.append(dict(lang=dict(types=types, lex=G.LEX, rules=G.compile_rules(rules), binder=r.choice(binders)),
                        ins=[dict(text=t) for t in dict.fromkeys(ts + extra)]))
    return out


def rules_pratt(rules):
    def find(e):
        if e[0] == 'pratt':
            return e
        for x in G.kids(e):
            f = find(x)
            if f:
                return f
    return find(rules[0])
