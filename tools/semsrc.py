"""Random grammar sources, valid and broken, for the static semantics (Sem.tla)."""
import random

RULES = ["r0", "r1", "r2", "r3", "expr"]
TOKS = ["t0", "t1", "num"]
QUOTED = ["'+'", "'a'", "'ctx'", "'=='"]
BUILTINS = ["eof", "any", "commit", "not", "is_in", "layer", "with_skip", "inject", "enter", "exit", "prev_is"]
NEED = dict(eof=0, any=0, commit=0, is_in=1, layer=2, with_skip=2, inject=2, enter=2, exit=2, prev_is=1)
NEED["not"] = 1
PARAMS = ["p", "q", "r1", "t0"]
TRAITS = ["named", "typed"]


class Src:
    def __init__(self, rng, wild=0.3):
        self.r = rng
        self.wild = wild
        self.params = []
        self.rules = rng.sample(RULES, rng.choice([1, 2, 3, 4, 5]))
        if rng.random() < 0.25:
            self.rules.append(rng.choice(self.rules))
        if rng.random() < 0.2:       # a rule that looks like a built-in
            self.rules.append(rng.choice(BUILTINS))
        self.fns = []                # (name, arity) of rules with parameters
        self.toks = []

    def p(self, x):
        return self.r.random() < x

    def quoted(self):
        return self.r.choice(QUOTED)

    def ref(self):
        r = self.r
        x = r.random()
        if self.params and x < 0.3:
            return r.choice(self.params)
        if x < 0.6:
            return r.choice(self.rules)
        if x < 0.8 and self.toks:
            return r.choice(self.toks)
        if x < 0.87:
            return self.quoted()
        if x < 0.93:
            return r.choice(RULES + TOKS + PARAMS)
        return r.choice(self.rules + self.toks) if not self.p(self.wild) else r.choice(["zzz", "eof", "'zz'", "p", "q", "node", "rule_", "_"])

    def call(self, d):
        r = self.r
        if self.fns and self.p(0.4):
            f, n = r.choice(self.fns)
        elif self.p(0.1 * self.wild * 3):
            f, n = r.choice(self.rules + ["zzz", "balanced"] + self.toks), r.choice([0, 1, 2])
        else:
            f = r.choice(BUILTINS)
            n = NEED[f]
            if f == "prev_is":
                n = r.choice([0, 1, 2, 3])
        if self.p(0.2 * self.wild):
            n = r.choice([0, 1, 2, 3])
        args = [self.expr(d + 1) for _ in range(n)]
        if f in ("enter", "exit", "is_in") and args and not self.p(0.25 * self.wild):
            args[0] = r.choice(["'ctx'", "'c1'", "'c2'", "'+'", "''", "'\\''"]) if self.p(0.8) else self.ref()
        if f == "prev_is" and not self.p(self.wild):
            args = [r.choice(self.rules) for _ in args]
        return "<" + r.choice(["", "", "", " "]) + " ".join([f] + args) + r.choice(["", "", " "]) + ">"

    def expr(self, d=0):
        x = self.r.random()
        if d > 3 or x < 0.5:
            return self.ref()
        if x < 0.75:
            return self.call(d)
        if x < 0.85:
            return self.block(d + 1)
        return self.expr(d + 1) + self.r.choice(["*", "?"])

    def seq(self, d):
        return " ".join(self.expr(d) for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3])))

    def block(self, d=0):
        alts = [self.seq(d) for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
        return "{ " + " | ".join(alts) + " }"

    def attrs(self):
        r = self.r
        if not self.p(0.35):
            return ""
        pool = ["pratt", "cached", "replaceable", "replaces", "type(%s)" % r.choice(RULES), "type", "atom", "atom(%d)" % r.randrange(100),
                "prefix", "prefix(7)", "postfix", "postfix(%d)" % r.randrange(1000), "bin(%d)" % r.randrange(20), "bin(1)", "bin", "bin(x)",
                "bin(12345678901)", "postfix(99999999999)", "prefix(a)", "skip", "zzz", "type(9)"]
        one = lambda: ", ".join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3, 0] if self.p(self.wild) else [1, 1, 1, 2])))
        return "#[" + one() + r.choice(["", "", ","]) + "] "

    def rule(self, name, params):
        r = self.r
        self.params = params or []
        s = self.attrs()
        if self.p(0.45):
            s += "pub "
        s += "rule " + name
        if params is not None:
            s += r.choice(["(", "( "]) + ", ".join(params) + r.choice([")", ",)" if params else ")", " )"])
        if any(k in s for k in ("bin", "prefix", "postfix")) and self.p(0.6):
            n = 3 if "bin" in s else 2
            if self.p(0.2):
                n += r.choice([-1, 1])
            body = "{ " + " ".join(self.expr(2) for _ in range(n)) + " }"
        else:
            body = self.block()
        self.params = []
        return s + " " + body

    def tokenizer(self):
        r = self.r
        out = []
        pool = TOKS + ["plus", "a"]
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            n = r.choice(pool)
            k = r.random()
            pat = self.quoted() if k < 0.45 else 'r"\\d+"' if k < 0.8 else 'r#"a"#'
            s = r.choice(["", "", "", "#[skip] ", "#[contextual] "]) + n + " " + pat
            if self.p(0.1):
                s += " 'parse_it'"
            if self.p(0.1 * self.wild):
                s = n
                pat = "r"
            self.toks.append(pat if pat[0] == "'" else n)
            out.append(s)
        return "tokenizer {" + r.choice(["\n", " "]) + r.choice(["\n", " "]).join(out) + " }"

    def ast(self):
        r = self.r
        items = []
        nodes = [r.choice(self.rules + ["file"]) for _ in range(r.choice([0, 1, 2, 3]))]
        classes = [r.choice(["expr", "any", "k0"]) for _ in range(r.choice([0, 0, 1, 2]))]
        traits = [r.choice(TRAITS) for _ in range(r.choice([0, 0, 1, 2]))]

        def methods():
            out = []
            for _ in range(r.choice([0, 1, 2, 3])):
                sel = r.choice(nodes + classes + self.rules + [t for t in self.toks if t[0] != "'"] + TOKS + ["zzz"])
                out.append(r.choice(["m", "n", "name", "expr"]) + " " + sel + r.choice(["", "", "*", "?", ".text", "?.text", ".zzz", ". text"]))
            return "{ " + r.choice([" ", "\n"]).join(out) + " }"
        for n in nodes:
            t = ""
            if self.p(0.4):
                t = ": " + ", ".join(r.choice(TRAITS + (["zzz"] if self.p(self.wild) else [])) for _ in range(r.choice([0, 1, 1, 2])))
                t += r.choice(["", "", ","])
            items.append("node %s%s %s" % (n, t, methods()))
        for c in classes:
            items.append("class %s { %s }" % (c, " ".join(r.choice(self.rules) for _ in range(r.choice([0, 1, 2])))))
        for t in traits:
            items.append("trait %s %s" % (t, methods()))
        r.shuffle(items)
        return "ast {" + r.choice([" ", "\n"]) + r.choice([" ", "\n"]).join(items) + " }"

    def source(self):
        r = self.r
        forms = []
        tok = [self.tokenizer()] if self.p(0.75) else []
        sig = []
        for n in self.rules:
            ps = None
            if self.p(0.3):
                ps = r.sample(PARAMS, r.choice([0, 1, 1, 2, 3]))
                if self.p(0.1) and ps:
                    ps.append(ps[0])
                self.fns.append((n, len(ps)))
            sig.append((n, ps))
        forms = [self.rule(n, ps) for n, ps in sig]
        if self.p(0.4):
            forms.append(self.ast())
            if self.p(0.1):
                forms.append(self.ast())
        if self.p(0.2):
            forms.insert(r.randrange(len(forms) + 1), 'test r"%s"' % r.choice(["", "x y", "rule"]))
            if self.p(0.4):
                forms.insert(r.randrange(len(forms) + 1), 'test r"b"')
        if self.p(0.1):
            forms.insert(r.randrange(len(forms) + 1), 'verbatim r"fn f() {}"')
        at = 0 if self.p(0.7) else r.randrange(len(forms) + 1)
        forms[at:at] = tok
        if tok and self.p(0.06):
            forms.append(self.tokenizer())
        sep = lambda: r.choice(["\n", "\n", "\n\n", " ", "\n// note\n", "\n// ä 'x' rule\n"])
        out = r.choice(["", "\n", "// c\n"])
        for f in forms:
            out += f + sep()
        return out


def scramble(rng, text):
    """token-level damage"""
    import re
    ts = re.findall(r"\s+|\w+|'[^']*'|.", text)
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if not ts:
            break
        i = rng.randrange(len(ts))
        k = rng.random()
        if k < 0.45:
            del ts[i]
        elif k < 0.6:
            ts.insert(i, ts[rng.randrange(len(ts))])
        elif k < 0.75:
            ts.insert(i, rng.choice(["{", "}", "<", ">", "(", ")", "#", "[", "]", "|", "pub", "rule", "'", "node", "ast", "'x'", "é", ":", "trait", "class", ".", ",", "*"]))
        elif k < 0.85:
            del ts[i:i + rng.randrange(1, 6)]
        elif k < 0.93:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        else:
            ts = ts[:i]
    return ''.join(ts)


def forms():
    """every call of every function with up to three arguments of every kind, and every way to declare an operator"""
    args = ["r0", "t0", "'+'", "'zz'", "zzz", "{ r1 }", "<eof>", "p", "r1*"]
    head = "tokenizer { t0 r\"a\" plus '+' }\n"
    tail = "\npub rule r1 { t0 }\nrule f0() { }\nrule f1(x) { x }\nrule f2(x, p) { x p }\n"
    out = []
    fns = BUILTINS + ["r0", "r1", "f0", "f1", "f2", "t0", "p", "zzz"]
    import itertools
    for f in fns:
        for k in range(4):
            combos = list(itertools.product(args, repeat=k))
            for c in combos:
                out.append(head + "rule r0(p) { <%s> }" % ' '.join([f] + list(c)) + tail)
    return out


def operators():
    head = "pub rule file { e }\n#[pratt] rule e { "
    out = []
    bodies = ["", "{}", "{ e }", "{ e e }", "{ e e e }", "{ e '+' e }", "{ e e e e }", "{ e | e }", "{ | e }", "{ e e e | }", "{ {e} e }", "{ {e | e} e }", "{ e? e }", "{ e* '+' e* }", "{ <eof> <eof> }"]
    attrs = ["", "#[atom]", "#[atom(1)]", "#[atom(x)]", "#[bin]", "#[bin(1)]", "#[bin(x)]", "#[bin(12345678901)]", "#[prefix]", "#[prefix(3)]", "#[postfix]", "#[postfix(8)]",
             "#[bin(1), atom]", "#[prefix(1), postfix(2)]", "#[postfix(2), prefix(1)]", "#[bin, bin(2)]", "#[bin(2), bin]", "#[atom(]", "#[bin(1]", "#[pratt, bin(1)]", "#[bin(1),]", "#[]", "#[,bin(1)]"]
    for b in bodies:
        for a in attrs:
            for pub in ("pub ", ""):
                for name in ("x", ""):
                    out.append(head + "x }\n" + a + " " + pub + "rule " + name + " " + b + "\n")
    return out
