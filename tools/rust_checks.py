"""C18 and C21: symbol search and the Rust editor, judged by SymbolTrace.tla and RustTrace.tla."""
import glob, json, os, random, re
import common as C

NAMES = ["a", "A", "ab", "Ab", "aB", "foo", "Foo", "FOO", "bar", "Baz", "x_y", "_x", "X1", "oof", "é", "É", "éa", "ãĩ", "Éñ", "Я", "ñß", "new", "New"]
TYPES = ["X", "Foo<T>", "&'a str", "Vec<Option<u8>>", "(A, B)", "()", "[u8; 4]", "*const T", "fn(X) -> Y", "a::b::C", "Box<Fn(i32) -> X + 'a>", "_", "!"]
EXPRS = ["x", "1", "f(a, b)", "a.b(c)", "{ 1 }", "if a { b } else { c }", "S { x: 1, y }", "(a, b)", "[1, 2]", "|a, b| a", "\"s,\"", "m!(a, b)", "match x { A => 1, B => 2 }"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def name(self):
        return self.r.choice(NAMES)

    def some(self, f, a=0, b=3, sep=", "):
        return sep.join(f() for _ in range(self.r.randint(a, b)))

    def ty(self):
        return self.r.choice(TYPES)

    def params(self):
        if self.r.random() < 0.5:
            return ""
        lts = ["'" + c + self.r.choice(["", ": 'b", ":"]) for c in self.r.sample("abc", self.r.randint(0, 2))]
        tys = [c + self.r.choice(["", ": Clone", ": A + B", ":", ": 'a + X<Y>"]) for c in self.r.sample("TUV", self.r.randint(0, 3))]
        return "<" + self.r.choice([", ", ",", " , "]).join(lts + tys) + self.r.choice(["", "", ","]) + ">"

    def vis(self):
        return self.r.choice(["", "", "pub ", "pub(crate) ", "// c\n", "/// doc\n", "#[attr(a, b)] ", "/* b */ "])

    def stmt(self, d):
        k = self.r.randint(0, 7)
        if k == 0:
            return "let " + self.r.choice(["x = 1;", "x", "", ";", "x: T", "x\n= 2;", "(a, b) = c;", " ;", "x // c\n;", "y = ", "mut z;"])
        if k == 1:
            return self.r.choice(["if let Some(x) = y { }", "while let X = z { }", "if let ", "let let x = 1;"])
        if k == 2 and d > 0:
            return self.item(d - 1)
        return self.r.choice(EXPRS) + self.r.choice([";", ";", ""])

    def block(self, d):
        return "{" + self.r.choice(["", " ", "\n    "]) + " ".join(self.stmt(d) for _ in range(self.r.randint(0, 3))) + self.r.choice(["}", " }", "\n}"])

    def fn(self, d):
        ps = ", ".join(self.r.choice(["self", "&self"]) if i == 0 and self.r.random() < 0.3 else "%s: %s" % (self.name(), self.ty()) for i in range(self.r.randint(0, 3)))
        return "%sfn %s%s(%s)%s %s" % (self.r.choice(["", "const ", "unsafe "]), self.name(), self.params(), ps, self.r.choice(["", " -> " + self.ty()]),
                                       self.block(d) if self.r.random() < 0.9 else ";")

    def item(self, d):
        r, n = self.r, self.name
        k = r.randint(0, 11)
        v = self.vis()
        if k <= 1:
            return v + self.fn(d)
        if k == 2:
            body = r.choice([";", "(%s);" % self.some(self.ty), " {%s}" % self.some(lambda: n() + ": " + self.ty())])
            return v + r.choice(["struct ", "struct ", "union "]) + n() + self.params() + body
        if k == 3:
            return v + "enum %s%s {%s}" % (n(), self.params(), self.some(lambda: n() + r.choice(["", " = 1", "(%s)" % self.ty(), " {%s: %s}" % (n(), self.ty())])))
        if k == 4:
            return v + "type %s%s%s;" % (n(), self.params(), r.choice(["", " = " + self.ty()]))
        if k == 5:
            return v + "trait %s%s {%s}" % (n(), self.params(), self.members(d))
        if k == 6:
            return v + "%simpl%s %s%s {%s}" % (r.choice(["", "unsafe "]), self.params(), self.ty(), r.choice(["", " for " + self.ty()]), self.members(d))
        if k == 7:
            return v + ("mod %s;" % n() if d == 0 or r.random() < 0.3 else "mod %s {\n%s\n}" % (n(), self.items(d - 1)))
        if k == 8:
            return v + "use " + r.choice(["a", "a::b", "::a::b::c", "a::b as c", "a::*", "a::{b, c}", "self::x", "super", "self", "a::super", "super as x", "self::self", "{a, b as c,}", "a::{}", "::*", "super::a", "a::b::{self, c}"]) + ";"
        if k == 9:
            return r.choice(["extern crate a;", "extern crate a as b;", "const X: i32 = 1;", "static A: &str = \"a,b\";", "m!{}", "m!(a, b);", "extern \"C\" { fn %s(); }" % n()])
        return v + "impl %s { %s }" % (n(), self.fn(d))

    def members(self, d):
        r = self.r
        return r.choice([" ", "\n    "]).join([""] + [self.vis() + self.fn(max(0, d - 1)) if r.random() < 0.7 else "type %s;" % self.name() for _ in range(r.randint(0, 3))]) + " "

    def items(self, d):
        return self.r.choice(["\n", "\n\n", " "]).join(self.item(d) for _ in range(self.r.randint(0, 4)))

    def source(self):
        t = self.items(2)
        if self.r.random() < 0.3:
            t = mangle(self.r, t)
        return t


TOKENS = re.compile(r"\s+|\w+|'\w+|//[^\n]*|.", re.S)


def mangle(rng, t):
    ts = TOKENS.findall(t)
    for _ in range(rng.randint(1, 3)):
        if not ts:
            break
        i = rng.randrange(len(ts))
        k = rng.random()
        if k < 0.4:
            del ts[i:i + rng.randint(1, 3)]
        elif k < 0.7:
            ts.insert(i, rng.choice(["{", "}", "(", ")", "<", ">", ";", ",", "fn", "struct", "impl", "let ", "use", "é", "'a", "::", "$"]))
        else:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
    return "".join(ts)


def offsets(text):
    out, o = [0], 0
    for ch in text:
        o += len(ch.encode())
        out.append(o)
    return out


def judge(rep, module, lines, cases, name, what):
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc(module, env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        i = int(st["c"]) - 1
        exp = [e for e in res.printed("EXPECTED") if e["c"] == i + 1]
        rep.violation("%s: %s: not what Rust.tla says for %s" % (name, st["v"], what(cases[i])),
                      dict(case=cases[i], what=st["v"], expected=exp[-1]["e"] if exp else None, recorded=lines[i]))
        return False
    return True


SMALL = ["", "l", "let", "let ", "fn f() { let }", "fn f() { let ", "fn f(){let }", "fn f() { let  }", "fn f() { let x;}", "fn f() { let /* */; }", "fn f() { let x =1; let }", "fn f() { let\n;}",
         "fn f() { let x: fn() -> Y }", "struct", "struct S", "struct S;", "struct S<", "struct S<'a, T>;enum E<>{}", "enum E<U,>{A,B}", "union U<'x:'y>{}", "impl", "impl X", "impl X {}", "impl<T> X<T> for Y {",
         "impl X for Y { fn f() {} }", "impl X for { fn f() {} }", "trait T { fn g() { struct Q; } }", "mod m { mod n { fn f() {} } }", "use", "use a", "use a;", "use a::;", "use a::b;", "use a::b as c;", "use ::b;",
         "use a::{b};", "use a, b;", "fn f(a: B, c: D) {}", "fn f(a: B, , c: D) {}", "fn f<A,B>() {}", "fn f() { g(a,b) }", "fn f() { [a,(b)] }", "// é\nstruct É { é: É, ñ: Ñ }", "enum E {\n A, // c\n B,\n}", ",", "a,b",
         "struct S { a: fn(A, B), b: (C, D) }", "fn f() { struct X; enum Y {} impl X { fn g() {} } }"]


LETS = ["fn f() { let x = }", "fn f() { let x = 1 }", "fn f() { let x = { let  }; }", "fn f() { let x = { let }; let }", "fn f() { let a { let y } }", "fn f() { let x = || { let z \n}; }",
        "fn f() { let a = 1; { let  } let b; }"]


def shipped(limit):
    out = []
    for f in sorted(glob.glob("/repo/**/*.rs", recursive=True)):
        if "/target/" in f:
            continue
        t = open(f, encoding="utf-8").read()
        if len(t) < limit:
            out.append(t)
    return out


def editor(rep, binary, rng):
    fam = {}
    texts = [Gen(rng).source() for _ in range(4000 if C.THOROUGH else 450)]
    fam["random"] = [dict(text=t, offsets=sorted(rng.sample(offsets(t), min(len(offsets(t)), 40)))) for t in texts]
    pieces = [" x", " =", " 1", ";", ": T", " let ", " }", "{ let ", "\n"]
    lets = [a + b + c for a in [""] + pieces for b in [""] + pieces for c in pieces]
    lets = ["fn f() { " + w + "let " + "".join(l) for l in (lets if C.THOROUGH else rng.sample(lets, 120)) for w in rng.choice([[""], [""], ["let a = { "], ["let a { "]])]
    small = SMALL + LETS + lets + [mangle(rng, t) for t in SMALL for _ in range(20 if C.THOROUGH else 3)]
    fam["every place"] = [dict(text=t, offsets=offsets(t)) for t in small]
    ship = shipped(20000 if C.THOROUGH else 2000)
    fam["shipped"] = [dict(text=t, offsets=sorted(rng.sample(offsets(t), min(len(offsets(t)), 25)))) for t in ship]
    for name, cases in fam.items():
        outs = C.run_cases(binary, "rust", cases)
        for c, o in zip(cases, outs):
            if "nodes" not in o:
                rep.violation("%s: the editor does not return on %r: %s" % (name, c["text"][:200], json.dumps(o)[:200]), dict(case=c, outcome=o))
                return
            rep.add(sources=1, places=len(c["offsets"]))
        if not judge(rep, "RustTrace", outs, cases, name, lambda c: repr(c["text"][:300])):
            return
        rep.sample(dict(family=name, text=cases[-1]["text"][:300]))


def lower_table(texts):
    return {ch: "".join(ch.lower()) for ch in sorted(set("".join(texts)))}


def states(rng, k, big):
    """Contents of a folder at several moments, with queries."""
    g = Gen(rng)
    files, out, version = {}, [], 0
    for step in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 4)):
            version += 1
            p = rng.choice(["a.rs", "b.rs", "sub/c.rs", "sub/sub/d.rs", "e.rs"])
            if p in files and rng.random() < 0.4:
                del files[p]
                continue
            mark = "zq_%d_%d" % (k, version)
            body = g.source()
            if big and rng.random() < 0.8:
                body += "\n" + "\n".join("%s %s%s%d%s" % (kw, rng.choice(NAMES), "", i, tail) for i in range(rng.randint(100, 400))
                                         for kw, tail in [rng.choice([("fn", "() {}"), ("struct", ";")])])
            files[p] = dict(text="fn %s() {}\n%s" % (mark, body), mark=mark)
        qs = ["", "#"] + rng.sample(NAMES, 6) + ["#" + rng.choice(NAMES) for _ in range(3)]
        for _ in range(14):
            n = rng.choice(NAMES + ["zq_%d" % k])
            q = "".join(ch for ch in n if rng.random() < 0.8)
            if rng.random() < 0.3:
                q += rng.choice(["é", "ĩ", "a", "_", "1", "0", "ü"])
            qs.append(rng.choice(["", "", "#"]) + (q.upper() if rng.random() < 0.2 and q.upper().lower() == q.lower() else q) + rng.choice(["", "", "", "#"]))
        if big:
            qs = ["", "#"] + rng.sample(qs[2:], 6)
        out.append(dict(files=json.loads(json.dumps(files)), queries=qs))
    return out


def symbols(rep, binary, rng):
    n, rounds = 60, (25 if C.THOROUGH else 4)
    for k in range(rounds):
        cases = []
        for i in range(n):
            st = states(rng, i, i % 12 == 0)
            low = lower_table([q for s in st for q in s["queries"]] + [f["text"] for s in st for f in s["files"].values()])
            cases.append(dict(states=st, low=low))
        outs = C.run_cases(binary, "symbols", [dict(batch=cases)], case_timeout=600, env={"SCRATCH": C.work(rep.prop)})[0]
        if not isinstance(outs, list):
            rep.violation("a batch of searches does not end: %s" % json.dumps(outs)[:300], dict(cases=cases[:2], outcome=outs))
            return
        lines, of = [], []
        for c, o in zip(cases, outs):
            if not isinstance(o, list):
                rep.violation("searching panics", dict(case=c, outcome=o))
                return
            for st, l in zip(c["states"], o):
                lines.append(l)
                of.append(dict(state=st))
                rep.add(states_of_folders=1, queries=len(st["queries"]), results=sum(len(a[1]) for a in l["answers"]))
        if not judge(rep, "SymbolTrace", lines, of, "symbols%d" % k, lambda c: json.dumps(c["state"], ensure_ascii=False)[:500]):
            return
        rep.sample(dict(files=sorted(of[-1]["state"]["files"]), queries=of[-1]["state"]["queries"]))


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("rust-%s-%d" % (prop, C.SEED))
    if prop == "C18":
        symbols(rep, binary, rng)
        rep.assumptions.append("names and queries are made of characters whose lower case is one the specification is given")
    else:
        editor(rep, binary, rng)
    rep.finish()
