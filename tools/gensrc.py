"""Grammar sources: an abstract syntax for .fall files, random sources made from random engine
grammars, rendering in random layout and notation, and the form the TLA+ specification reads.

file  = {"toks": [tok], "rules": [rule], "verb": str or None, "ast": [...]}
tok   = {"n": name, "q": quoted spelling or None, "re": regex AST or None, "ctx": bool, "skip": bool, "f": fn}
rule  = {"n": name, "pub": bool, "at": [(name, value or None)], "ps": [names], "b": block}
block = ('block', [seq]) ; seq = ('seq', [part])
part  = ('ref', text) | ('call', fn, [part]) | ('opt', part) | ('rep', part) | block
"""
import random
import grammar as G
import regexes as X
from grammar import TOKS, CTX0, WS, CMT

NAMES = ("foo bar baz qux item expr stmt list_item value pair x y1 a_b block body tail head_ elem opt_tail fn_decl m1 k9 "
         "zed node test ast pub rule class trait tokenizer verbatim when_ l2 loop_body xs ab abc eof_ cc_1 file root decl "
         "any not eof layer with_skip inject enter exit is_in prev_is commit").split()
PNAMES = "el x y a b body p q sep bra ket any tail".split()
CTXN = ["no_struct", "c", "in loop", "é", "\"q\"", "##", "1", "a\\\\b", "no_struct2"]


PREV = "<prev_is>"


class Conv:
    """engine rules (tuples) -> source file"""
    def __init__(self, rng, rules):
        self.r = rng
        self.rules = rules
        names = [n for n in NAMES]
        rng.shuffle(names)
        self.names = names
        self.taken = set()
        self.out = []
        self.types = {}       # engine type -> source rule name
        self.tokens()
        self.contexts = rng.sample(CTXN, len(CTXN))
        self.usedctx = False
        self.ctxnoise = rng.choice([0, 0.15, 0.4])
        self.pnames = rng.sample(PNAMES, rng.choice([2, 3, len(PNAMES)]))

    def name(self, params=False):
        while self.names:
            n = self.names.pop()
            if n.upper() in self.taken or (params and n in BUILTINS):
                continue
            self.taken.add(n.upper())
            return n
        n = "r%d" % len(self.taken)
        self.taken.add(n.upper())
        return n

    # ------------------------------------------------------------ tokens
    def tokens(self):
        r = self.r
        plain = {c: c for c in TOKS}
        exotic = ["\\\\", "\"", "\"#", "##", "{{", "}}", "{%", "&amp;", "λ", "€", "\U0001F600", "$", "^", "[", "]", ".", "*", "+", "?", "|",
                  "/", "/*", "<", ">", "r\"", "\\'", "#\"", "-", "~", "0", "=>", "\\n", "é", "x", "_"]
        # a spelling of several characters, letters and special ones
        exotic += [''.join(r.choice("ab1xé.+*?|()[]{}^$-#&~<>=\" _") for _ in range(r.choice([2, 2, 3, 4]))) for _ in range(10)]
        exotic = list(dict.fromkeys(x for x in exotic if x.strip() == x))
        self.sp = dict(plain)
        if r.random() < 0.55:
            some = r.sample(list(TOKS), r.choice([1, 2, 3, 5, 8]))
            for c, s in zip(some, r.sample(exotic, len(some))):
                self.sp[c] = s
        if len(set(self.sp.values())) < len(self.sp):
            self.sp = dict(plain)
        self.toks = []
        self.tref = {}
        for c, ty in TOKS.items():
            n = self.r.choice(["t_%d" % ty, "tok%d" % ty, "T%d" % ty])
            self.taken.add(n.upper())
            s = self.sp[c]
            x = r.random()
            if x < 0.6:
                t = dict(n=n, q="'%s'" % s, re=None, ctx=False, skip=False, f='')
                self.tref[c] = "'%s'" % s
            else:
                re = X.string(s)
                if x > 0.9 and s.isalpha() and s.isascii():
                    re = ('plus', X.lit(s)) if len(s) == 1 else re
                t = dict(n=n, q=None, re=re, ctx=False, skip=False, f='')
                self.tref[c] = n
            self.toks.append(t)
        if r.random() < 0.3:
            self.toks.append(dict(n="word", q=None, re=('plus', X.WORD), ctx=False, skip=False, f=''))
            self.taken.add("WORD")
        if r.random() < 0.15:
            self.toks.append(dict(n="bang", q=None, re=X.string("b"), ctx=False, skip=False, f='until_bang'))
            self.taken.add("BANG")
        self.cref = {}
        r.shuffle(self.toks)
        ws = dict(n="ws", q=None, re=('plus', X.SPACE), ctx=False, skip=True, f='')
        cm = r.choice(["#", "~~", "//c"])
        self.sp['#'] = cm
        if r.random() < 0.5:
            cmt = dict(n="cmt", q=None, re=X.string(cm), ctx=False, skip=True, f='')
        else:
            cmt = dict(n="cmt", q="'%s'" % cm, re=None, ctx=False, skip=True, f='')
        self.taken |= {"WS", "CMT"}
        if r.random() < 0.8:
            self.toks = [ws, cmt] + self.toks
        else:
            self.toks += [ws, cmt]

    def spell(self, s):
        return ''.join(self.sp.get(c, c) for c in s)

    def ctok(self, ty, txt):
        s = self.spell(txt)
        q = "'%s'" % s
        # one contextual token per spelling; a spelling that is also an ordinary token has one name only
        if q not in self.cref:
            if any(t["q"] == q for t in self.toks):
                self.cref[q] = q
            else:
                n = "kw%d" % len(self.cref)
                self.taken.add(n.upper())
                t = dict(n=n, q=q, re=None, ctx=True, skip=False, f='')
                self.toks.insert(self.r.randrange(2, len(self.toks) + 1), t)
                self.cref[q] = q
        return ('ref', self.cref[q])

    # ------------------------------------------------------------ rules
    def run(self):
        r = self.r
        self.rname = {}
        self.params = {}
        for i, e in enumerate(self.rules):
            vs = set()
            for x in self.callers(i):
                vs |= {a for a, _ in x[2]}
            ps = sorted(vs | set(self.vars_of(e)))
            self.rname[i] = self.name(bool(ps))
            self.params[i] = ps
        pend = list(enumerate(self.rules))
        for i, e in pend:
            self.rule(i, e)
        if self.usedctx and r.random() < 0.6:
            # further contexts, in a rule nothing uses: the numbers of the others change
            self.emit(self.name(), False, [], [], ('block', [('seq', [('call', r.choice(['is_in']), [('ref', "'%s'" % c)])]) for c in r.sample(CTXN, 4)]))
        order = self.out[1:]
        r.shuffle(order)
        self.out = [self.out[0]] + order
        return dict(toks=self.toks, rules=self.out, verb=self.verb(), ast=None)

    def callers(self, i):
        out = []

        def walk(e):
            if e[0] == 'call' and e[1] == i:
                out.append(e)
            for x in G.kids(e):
                walk(x)
        for e in self.rules:
            walk(e)
        return out

    def pick_params(self, n, body_names, rule_name):
        r = self.r
        cand = [p for p in self.pnames + ([] if PREV in body_names else [x["n"] for x in self.out if x]) if p not in body_names and p != rule_name]
        if r.random() < 0.5:
            r.shuffle(cand)
        out = []
        for c in cand:
            if len(out) == n:
                break
            if c not in out:
                out.append(c)
        return out + ["p%d" % k for k in range(n - len(out))]

    def emit(self, name, pub, at, vs, body):
        """vs: engine parameter numbers of the rule, in order; names are chosen here"""
        used = set()

        def names(e):
            if e[0] == 'ref':
                used.add(e[1])
            elif e[0] == 'prevcall':
                used.add(PREV)
            elif e[0] == 'call':
                used.add(e[1])
                for x in e[2]:
                    names(x)
            elif e[0] in ('block', 'seq'):
                for x in e[1]:
                    names(x)
            elif e[0] in ('opt', 'rep'):
                names(e[1])
        names(body)
        ps = self.pick_params(len(vs), used, name)
        sub = {v: p for v, p in zip(vs, ps)}

        def put(e):
            if e[0] == 'varref':
                return ('ref', sub[e[1]])
            if e[0] == 'call':
                return ('call', e[1], [put(x) for x in e[2]])
            if e[0] in ('block', 'seq'):
                return (e[0], [put(x) for x in e[1]])
            if e[0] in ('opt', 'rep'):
                return (e[0], put(e[1]))
            return e
        at = list(at)
        if not vs and not any(n in ("cached", "pratt") for n, _ in at) and self.r.random() < 0.5 and only_tokens(body, self.tref):
            at.append(("cached", None))
        elif pub and not any(n in ("cached", "pratt") for n, _ in at) and self.r.random() < 0.2:
            at.append(("cached", None))
        if self.r.random() < 0.15:
            at.append(self.r.choice([("doc", None), ("inline", "yes"), ("level", "3")]))
        self.r.shuffle(at)
        self.out.append(dict(n=name, pub=pub, at=at, ps=ps, b=put(body)))

    def rule(self, i, e):
        name, vs = self.rname[i], self.params[i]
        if e[0] == 'pratt':
            return self.pratt_rule(name, e, vs)
        if e[0] == 'pub':
            at, inner = [], e[2]
            if e[3]:
                at.append(("replaceable", None))
            if inner[0] == 'cached' and self.r.random() < 0.8:
                at.append(("cached", None))
                inner = inner[1]
            slot = len(self.out)
            self.out.append(None)
            b = self.block(inner)
            self.typed(at, e[1], name)
            self.emit(name, True, at, vs, b)
            self.out[slot] = self.out.pop()
            return
        if e[0] == 'pubrep':
            b = self.block(e[2])
            at = [("replaces", None)]
            self.typed(at, e[1], name)
            return self.emit(name, True, at, vs, b)
        if e[0] == 'cached':
            b = self.block(e[1])
            return self.emit(name, False, [("cached", None)], vs, b)
        b = self.block(e)
        self.emit(name, False, [], vs, b)

    def typed(self, at, ty, name):
        """several rules of one engine type: the first gives the type its name"""
        if ty in self.types:
            at.append(("type", self.types[ty]))
        else:
            self.types[ty] = name

    def vars_of(self, e):
        out = set()

        def walk(x):
            if x[0] == 'var':
                out.add(x[1])
            for y in G.kids(x):
                walk(y)
        walk(e)
        return sorted(out)

    def lift(self, e, suffix=None):
        """a rule of its own for e, and a reference to it"""
        vs = self.vars_of(e)
        name = self.name(bool(vs))
        k = e[0]
        if k == 'pratt':
            self.pratt_rule(name, e, vs)
        elif k == 'pub':
            at, inner = [], e[2]
            if e[3]:
                at.append(("replaceable", None))
            if inner[0] == 'cached':
                at.append(("cached", None))
                inner = inner[1]
            b = self.block(inner)
            self.typed(at, e[1], name)
            self.emit(name, True, at, vs, b)
        elif k == 'pubrep':
            b = self.block(e[2])
            at = [("replaces", None)]
            self.typed(at, e[1], name)
            self.emit(name, True, at, vs, b)
        elif k == 'cached':
            b = self.block(e[1])
            self.emit(name, False, [("cached", None)], vs, b)
        else:
            b = self.block(e)
            self.emit(name, False, [], vs, b)
        if vs:
            return ('call', name, [('varref', v) for v in vs])
        return ('ref', name)

    def pratt_rule(self, name, e, vs):
        """operators are rules whose middle (or end) is the operator expression"""
        r = self.r
        me = ('ref', name)
        alts = []
        for a in e[1]:
            if a[0] == 'rule' and self.rules[a[1]][0] == 'pub' and not self.params[a[1]]:
                self.atoms = getattr(self, 'atoms', set()) | {a[1]}
                alts.append((('ref', self.rname[a[1]]), ('atom', a[1])))
                continue
            x = a if a[0] == 'pub' else ('pub', 1000 + len(self.taken), a, False)
            ref = self.lift(x)
            self.by_name(ref[1])["at"].append(("atom", None))
            alts.append((ref, 'atom'))
        for t, o, p in e[2]:
            n = self.name()
            op = self.part(o)
            v = [("prefix", None)] if p == 999 and r.random() < 0.7 else [("prefix", str(p))]
            self.typed(v, t, n)
            self.emit(n, True, v, [], ('block', [('seq', [op, self.noise(me)])]))
            alts.append((('ref', n), 'pre'))
        for t, o, p, rhs in e[3]:
            n = self.name()
            op = self.part(o)
            if rhs:
                v = [("bin", str(p))]
                body = [self.noise(me), op, self.noise(me)]
            else:
                v = [("postfix", None)] if p == 999 and r.random() < 0.7 else [("postfix", str(p))]
                body = [self.noise(me), op]
            self.typed(v, t, n)
            self.emit(n, True, v, [], ('block', [('seq', body)]))
            alts.append((('ref', n), 'inf'))
        # the order among atoms, among prefix and among other operators matters, otherwise not
        groups = {}
        for a in alts:
            groups.setdefault(a[1] if isinstance(a[1], str) else 'atom', []).append(a[0])
        order = [k for k, v in groups.items() for _ in v]
        r.shuffle(order)
        body = ('block', [('seq', [groups[k].pop(0)]) for k in order])
        at = [("pratt", None)]
        self.emit(name, r.random() < 0.3, at, vs, body)

    def noise(self, e):
        return e

    def by_name(self, n):
        return next(x for x in self.out if x and x["n"] == n)

    # ------------------------------------------------------------ expressions
    def block(self, e):
        if e[0] == 'or':
            alts = []
            for x in e[1]:
                alts.append(self.seq(x))
            return ('block', alts)
        return ('block', [self.seq(e)])

    def seq(self, e):
        if e[0] == 'and':
            c = e[2]
            parts = [self.part(x) for x in e[1]]
            if c is not None:
                parts.insert(c, ('call', 'commit', []))
                if self.r.random() < 0.1:      # a later commit point changes nothing
                    parts.insert(self.r.randrange(c + 1, len(parts) + 1), ('call', 'commit', []))
            if not parts:
                return ('seq', [])
            return ('seq', parts)
        if e[0] == 'empty':
            return ('seq', [])
        return ('seq', [self.part(e)])

    def part(self, e):
        x = self.part0(e)
        while self.r.random() < 0.06:
            x = ('block', [('seq', [x])])
        return x

    def part0(self, e):
        k = e[0]
        p = self.part
        if k == 'tok':
            return ('ref', self.tref[G.CH[e[1]]])
        if k == 'ctok':
            return self.ctok(e[1], e[2])
        if k in ('any', 'eof'):
            return ('call', k, [])
        if k in ('or', 'and'):
            return self.block(e)
        if k == 'opt':
            return ('opt', p(e[1]))
        if k == 'rep':
            return ('rep', p(e[1]))
        if k == 'not':
            return ('call', 'not', [p(e[1])])
        if k == 'layer':
            return ('call', 'layer', [p(e[1]), p(e[2])])
        if k == 'skip':
            return ('call', 'with_skip', [p(e[1]), p(e[2])])
        if k == 'inject':
            return ('call', 'inject', [p(e[1]), p(e[2])])
        if k in ('enter', 'exit'):
            return ('call', k, [('ref', "'%s'" % self.ctxname(e[1])), p(e[2])])
        if k == 'isin':
            return ('call', 'is_in', [('ref', "'%s'" % self.ctxname(e[1]))])
        if k == 'prev':
            return ('prevcall', list(e[1]))
        if k == 'rule':
            return ('ref', self.rname[e[1]])
        if k == 'call':
            ps = self.params[e[1]]
            args = {a: x for a, x in e[2]}
            return ('call', self.rname[e[1]], [p(args[a]) if a in args else ('call', 'eof', []) for a in ps])
        if k == 'var':
            return ('varref', e[1])
        if k in ('pub', 'pubrep', 'cached', 'pratt'):
            return self.lift(e)
        raise Exception(k)

    def ctxname(self, i):
        self.usedctx = True
        if self.r.random() < self.ctxnoise:
            i = self.r.randrange(5)
        return self.contexts[i % len(self.contexts)]

    def verb(self):
        return None


def only_tokens(b, tref):
    """a body that is one plain sequence of tokens"""
    return len(b[1]) == 1 and b[1][0][1] and all(p[0] == 'ref' and p[1] in tref.values() for p in b[1][0][1])


BUILTINS = "any not eof layer with_skip inject enter exit is_in prev_is commit".split()


def source_of(rng, rules):
    """a source file for the engine grammar, or None if it cannot be expressed"""
    c = Conv(rng, rules)
    f = c.run()
    for i in getattr(c, 'atoms', ()):
        c.by_name(c.rname[i])["at"].append(("atom", None))
    # previous-node tests: by the names the types got; a test for a type no rule has is dropped
    def fix(e):
        if e[0] == 'prevcall':
            ns = [c.types[t] for t in e[1] if t in c.types]
            return ('call', 'prev_is', [('ref', n) for n in ns])
        if e[0] == 'call':
            return ('call', e[1], [fix(x) for x in e[2]])
        if e[0] in ('block', 'seq'):
            return (e[0], [fix(x) for x in e[1]])
        if e[0] in ('opt', 'rep'):
            return (e[0], fix(e[1]))
        return e
    for r in f["rules"]:
        r["b"] = fix(r["b"])
    return f, c


# ---------------------------------------------------------------- rendering

class Render:
    def __init__(self, rng, plain=False):
        self.r = rng
        self.plain = plain or rng.random() < 0.25
        self.out = []

    def tok(self, s):
        """appends a token, with layout before it"""
        r = self.r
        prev = self.out[-1][-1:] if self.out else ''
        word = lambda c: c.isalnum() or c == '_'
        need = bool(prev) and word(prev) and word(s[0])
        x = r.random()
        if self.plain:
            sp = ' ' if self.out else ''
        elif x < 0.45 and not need:
            sp = ''
        elif x < 0.8:
            sp = r.choice([' ', '  ', '\n', '\n  ', '\t', ' \n\n '])
        elif x < 0.9:
            sp = r.choice(['// note\n', ' // { | } \'x\' "\n', '\n//\n', ' // rule x { a }\n\n //é λ\n'])
        else:
            sp = ' '
        self.out.append(sp + s)

    def lit(self, s):
        self.tok(s)

    def regex(self, src):
        r = self.r
        if "'" not in src and False:
            pass
        n = 0
        while ('"' + '#' * n) in src:
            n += 1
        n += r.choice([0, 0, 0, 1, 2])
        self.tok('r' + '#' * n + '"' + src + '"' + '#' * n)

    def attrs(self, at):
        if not at:
            return
        self.tok('#')
        self.tok('[')
        for k, (n, v) in enumerate(at):
            self.tok(n)
            if v is not None:
                self.tok('(')
                self.tok(v)
                self.tok(')')
            if k + 1 < len(at) or self.r.random() < 0.1:
                self.tok(',')
        self.tok(']')

    def expr(self, e):
        k = e[0]
        if k == 'ref':
            self.tok(e[1])
        elif k == 'call':
            self.tok('<')
            self.tok(e[1])
            for x in e[2]:
                self.expr(x)
            self.tok('>')
        elif k in ('opt', 'rep'):
            self.expr(e[1])
            self.tok('?' if k == 'opt' else '*')
        elif k == 'block':
            self.tok('{')
            for i, s in enumerate(e[1]):
                if i:
                    self.tok('|')
                for p in s[1]:
                    self.expr(p)
            self.tok('}')
        else:
            raise Exception(k)

    def file(self, f):
        r = self.r
        forms = [('tok', None)] + [('rule', x) for x in f["rules"]]
        # the tokenizer may stand anywhere; so may tests
        t = forms.pop(0)
        forms.insert(r.choice([0, 0, len(forms), r.randrange(len(forms) + 1)]), t)
        if f["verb"]:
            forms.insert(r.randrange(len(forms) + 1), ('verb', f["verb"]))
        if f["ast"]:
            # documented to come last; before anything that mentions its keywords it would not end
            kw = any(x["n"] in ("node", "class", "trait") for x in f["rules"])
            forms.insert(len(forms) if kw else r.randrange(len(forms) + 1), ('ast', f["ast"]))
        if f.get("tests") is not None:
            at = sorted(r.randrange(len(forms) + (not f["ast"])) for _ in f["tests"])
            for i, t in reversed(list(zip(at, f["tests"]))):
                forms.insert(i, ('test', t))
        elif r.random() < 0.2:
            forms.insert(r.randrange(len(forms) + (not f["ast"])), ('test', r.choice(['r"a b"', 'r##"rule x { "# "##'])))
        for k, x in forms:
            if k == 'tok':
                self.tok('tokenizer')
                self.tok('{')
                for t in f["toks"]:
                    at = [(n, None) for n in ("skip", "ctx") if t[n]]
                    self.attrs([("contextual" if n == "ctx" else n, v) for n, v in at])
                    self.tok(t["n"])
                    if t["q"] is not None:
                        self.lit(t["q"])
                    else:
                        self.regex(X.render(t["re"]))
                    if t["f"]:
                        self.lit("'%s'" % t["f"])
                self.tok('}')
            elif k == 'rule':
                self.attrs(x["at"])
                if x["pub"]:
                    self.tok('pub')
                self.tok('rule')
                self.tok(x["n"])
                if x["ps"]:
                    self.tok('(')
                    for i, p in enumerate(x["ps"]):
                        self.tok(p)
                        if i + 1 < len(x["ps"]) or r.random() < 0.1:
                            self.tok(',')
                    self.tok(')')
                self.expr(x["b"])
            elif k == 'test':
                self.tok('test')
                self.tok(x)
            elif k == 'verb':
                self.tok('verbatim')
                n = 0
                while ('"' + '#' * n) in x:
                    n += 1
                self.tok('r' + '#' * n + '"' + x + '"' + '#' * n)
            elif k == 'ast':
                self.ast(x)
        if not self.plain and r.random() < 0.3:
            self.out.append(r.choice(['\n', ' // end', '\n\n']))
        return ''.join(self.out)

    def ast(self, items):
        self.tok('ast')
        self.tok('{')
        for it in items:
            self.tok(it["k"])
            self.tok(it["n"])
            if it["k"] == 'node' and it["traits"]:
                self.tok(':')
                for i, t in enumerate(it["traits"]):
                    self.tok(t)
                    if i + 1 < len(it["traits"]):
                        self.tok(',')
            self.tok('{')
            if it["k"] == 'class':
                for v in it["vs"]:
                    self.tok(v)
            else:
                for m in it["ms"]:
                    self.tok(m["n"])
                    self.tok(m["c"])
                    if m["opt"]:
                        self.tok('?')
                    if m["many"]:
                        self.tok('*')
                    if m["dot"]:
                        self.tok('.')
                        self.tok('text')
            self.tok('}')
        self.tok('}')


def render(rng, f, plain=False):
    return Render(rng, plain).file(f)


# ---------------------------------------------------------------- form for the specification

def chars(s):
    return [[ord(c), len(c.encode())] for c in s]


def codes(s):
    return [ord(c) for c in s]


def regex_table(e, table, repertoire):
    k = e[0]
    if k == 'cls':
        cs = sorted(ord(c) for c in repertoire if e[1](c))
        table.append(dict(k="cls", cs=[[c, c] for c in cs]))
        return len(table)
    if k in ('seq', 'alt'):
        ids = [regex_table(x, table, repertoire) for x in e[1]]
        table.append(dict(k=k, es=ids))
        return len(table)
    i = regex_table(e[1], table, repertoire)
    table.append(dict(k=k, b=i))
    return len(table)


def to_spec(f, texts):
    rep = sorted(set(''.join(texts)) | set('a'))
    R = []
    toks = []
    for t in f["toks"]:
        e = t["re"] if t["re"] is not None else X.string(t["q"][1:-1])
        toks.append(dict(n=t["n"], u=t["n"].upper(), q=t["q"] or "", ctx=t["ctx"], skip=t["skip"], f=t["f"],
                         txt=codes(t["q"][1:-1]) if t["q"] else [], re=regex_table(e, R, rep) if not t["ctx"] else 0))
    ex = []
    rules = []

    def add(e, ri):
        k = e[0]
        ex.append(None)
        i = len(ex) - 1
        if k == 'ref':
            v = dict(k="ref", r=ri, t=e[1])
        elif k == 'call':
            v = dict(k="call", r=ri, fn=e[1], es=[add(x, ri) for x in e[2]])
        elif k in ('opt', 'rep'):
            v = dict(k=k, r=ri, b=add(e[1], ri))
        else:
            v = dict(k=k, r=ri, es=[add(x, ri) for x in e[1]])
        ex[i] = v
        return i + 1
    for ri, r in enumerate(f["rules"]):
        b = add(r["b"], ri + 1)
        rules.append(dict(n=r["n"], u=r["n"].upper(), pub=r["pub"],
                          at=[dict(n=n, v=[v] if v is not None else [], num=[int(v)] if v is not None and v.isdigit() else []) for n, v in r["at"]],
                          ps=r["ps"], b=b))
    return dict(toks=toks, rules=rules, ex=ex, res=R)
