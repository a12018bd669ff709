"""Regular expressions of lexical rules: a small AST, its rendering as source, a parser for the syntax
used in the repository's grammars, and the table form the Lexer specification reads."""
import unicodedata

MAXC = 0x10FFFF


def ranges_of(pred, chars):
    """code point ranges covering exactly the characters of the repertoire with pred"""
    return [[ord(c), ord(c)] for c in chars if pred(c)]


def is_space(c):
    return c in ' \t\n\r\x0b\x0c\x85\xa0\u2003\u2028\u3000'


def is_digit(c):
    return unicodedata.category(c) == 'Nd'


def is_word(c):
    return c == '_' or unicodedata.category(c)[0] in 'LM' or unicodedata.category(c) in ('Nd', 'Pc', 'Nl')


def xid_start(c):
    return c != '_' and c.isidentifier()


def xid_continue(c):
    return ('a' + c).isidentifier()


# nested AST: ('cls', predicate, source) | ('seq', [..]) | ('alt', [..]) | ('star'|'plus'|'opt', e)
ESC = set('\\.+*?()|[]{}^$#&-~/\'"')


def quote(c):
    return {'\n': r'\n', '\t': r'\t'}.get(c) or ('\\' + c if c in '\\.+*?()|[]{}^$' else c)


def lit(c):
    return ('cls', lambda x, c=c: x == c, quote(c))


def string(s):
    return ('seq', [lit(c) for c in s])


SPACE = ('cls', is_space, r'\s')
DIGIT = ('cls', is_digit, r'\d')
WORD = ('cls', is_word, r'\w')
DOT = ('cls', lambda c: c != '\n', '.')


def charset(cs, neg=False):
    return ('cls', (lambda x: x not in cs) if neg else (lambda x: x in cs), '[%s%s]' % ('^' if neg else '', ''.join('\\' + c if c in '\\]^-[&~#' else quote(c) for c in cs)))


def render(e, prec=0):
    k = e[0]
    if k == 'cls':
        return e[2]
    if k == 'seq':
        s = ''.join(render(x, 1) for x in e[1])
        return '(%s)' % s if prec > 1 else s
    if k == 'alt':
        s = '|'.join(render(x, 0) for x in e[1])
        return '(%s)' % s if prec > 0 else s
    return render(e[1], 2) + {'star': '*', 'plus': '+', 'opt': '?'}[k]


def ends(e, t, p):
    """end positions in the order of preference of a backtracking matcher"""
    k = e[0]
    if k == 'cls':
        if p < len(t) and e[1](t[p]):
            yield p + 1
    elif k == 'seq':
        def go(i, q):
            if i == len(e[1]):
                yield q
                return
            for r in ends(e[1][i], t, q):
                for x in go(i + 1, r):
                    yield x
        for x in go(0, p):
            yield x
    elif k == 'alt':
        for a in e[1]:
            for x in ends(a, t, p):
                yield x
    elif k == 'opt':
        for x in ends(e[1], t, p):
            yield x
        yield p
    else:
        def rep(q, n):
            for r in ends(e[1], t, q):
                if r > q:
                    for x in rep(r, n + 1):
                        yield x
            if n > 0 or k == 'star':
                yield q
        for x in rep(p, 0):
            yield x


def agree(e, t):
    """preferred match = longest match at every position, and none is empty"""
    for p in range(len(t)):
        es = []
        for i, x in enumerate(ends(e, t, p)):
            es.append(x)
            if i > 400:
                return False
        if es and (es[0] != max(es) or min(es) == p and es[0] == p):
            return False
    return True


def table(exprs, chars):
    """specification table and the (1-based) index of each expression"""
    out = []

    def add(e):
        k = e[0]
        if k == 'cls':
            out.append(dict(k='cls', cs=ranges_of(e[1], chars)))
        elif k in ('seq', 'alt'):
            out.append(dict(k=k, es=[add(x) for x in e[1]]))
        else:
            out.append(dict(k=k, b=add(e[1])))
        return len(out)
    idx = [add(e) for e in exprs]
    return out, idx


def parse(s):
    pos = [0]

    def peek():
        return s[pos[0]] if pos[0] < len(s) else None

    def take():
        c = s[pos[0]]
        pos[0] += 1
        return c

    def escape():
        c = take()
        if c == 's':
            return SPACE
        if c == 'd':
            return DIGIT
        if c == 'w':
            return WORD
        if c == 'n':
            return lit('\n')
        if c == 'p':
            assert take() == '{'
            name = ''
            while peek() != '}':
                name += take()
            take()
            return ('cls', {'XID_Start': xid_start, 'XID_Continue': xid_continue}[name], r'\p{%s}' % name)
        return lit(c)

    def atom():
        c = take()
        if c == '(':
            e = alt()
            assert take() == ')'
            return e
        if c == '[':
            neg = peek() == '^'
            if neg:
                take()
            preds = []
            while peek() != ']':
                d = take()
                preds.append(escape()[1] if d == '\\' else (lambda x, d=d: x == d))
            take()
            return ('cls', (lambda x: not any(p(x) for p in preds)) if neg else (lambda x: any(p(x) for p in preds)), '')
        if c == '.':
            return DOT
        if c == '\\':
            return escape()
        return lit(c)

    def seq():
        es = []
        while peek() not in (None, '|', ')'):
            e = atom()
            while peek() in ('*', '+', '?'):
                e = ({'*': 'star', '+': 'plus', '?': 'opt'}[take()], e)
            es.append(e)
        return ('seq', es)

    def alt():
        es = [seq()]
        while peek() == '|':
            take()
            es.append(seq())
        return es[0] if len(es) == 1 else ('alt', es)

    e = alt()
    assert pos[0] == len(s), s
    return e
