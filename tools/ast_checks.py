"""C22: the typed wrappers generated for an ast block, judged by AstTrace.tla."""
import json, os, random
import common as C
import gen_checks as GC
import grammar as G
import gensrc as S
import tree_checks as T

CLASSES = "some_class expr_ def_like k0 _hidden any_of x__y stmt_kind word bang z".split()
TRAITS = "has_name owner_ body_owner _t t9 named".split()
METHODS = "name value body args parts first_ _x x__y children kids text parent next item ty m1 many".split()


def camel(n):
    return "".join(w[:1].upper() + w[1:] for w in n.split("_"))


def inside(f):
    """what may be among the children of each rule's node: names of rules and tokens"""
    rules = {r["n"]: r for r in f["rules"]}
    tok = {t["q"] or t["n"]: t["n"] for t in f["toks"]}
    ty = lambda r: next((v for n, v in r["at"] if n == "type"), r["n"])

    def walk(e, out, seen):
        if e[0] in ("ref", "call"):
            n = e[1]
            if n in rules and n not in seen:
                if rules[n]["pub"]:
                    out.append(ty(rules[n]))
                else:
                    walk(rules[n]["b"], out, seen | {n})
            elif e[0] == "ref" and n in tok:
                out.append(tok[n])
            if e[0] == "call":
                for x in e[2]:
                    walk(x, out, seen)
        elif e[0] in ("opt", "rep"):
            walk(e[1], out, seen)
            if e[0] == "rep":
                walk(e[1], out, seen)
        else:
            for x in e[1]:
                walk(x, out, seen)
    res = {}
    for r in f["rules"]:
        if r["pub"]:
            walk(r["b"], res.setdefault(ty(r), []), {r["n"]})
    return res


def ast_for(rng, f):
    holds = inside(f)
    types = [r["n"] for r in f["rules"] if r["pub"] and not any(n == "type" for n, _ in r["at"])]
    toks = [t["n"] for t in f["toks"]]
    taken = set()

    def fresh(n):
        if not camel(n) or camel(n) in taken:
            return False
        taken.add(camel(n))
        return True
    nodes = [n for n in rng.sample(types, rng.randint(min(1, len(types)), len(types))) + rng.sample(toks, rng.choice([0, 0, 1, 2])) if fresh(n)]
    classes, vs = [], {}
    for n in rng.sample(CLASSES, rng.randint(0, 3)):
        pool = nodes + classes
        if pool and n not in nodes and fresh(n):
            vs[n] = rng.sample(pool, rng.randint(1, len(pool)))
            classes.append(n)
    traits = [n for n in rng.sample(TRAITS, rng.randint(0, 3)) if fresh(n)]

    def methods(of):
        out = []
        near = [x for n in of for x in holds.get(n, [])]
        for n in rng.sample(METHODS, rng.choice([0, 1, 2, 3, 5])):
            wrappers = nodes + classes
            free = [t for t in toks if t not in nodes and t not in classes]
            if rng.random() < 0.85:
                some = [x for x in near if x in nodes]
                some += [c for c in classes for x in vs[c] if x in near]
                wrappers, free = some, [t for t in free if t in near]
            if wrappers and (rng.random() < 0.6 or not free):
                c = rng.choice(wrappers)
                ar = rng.choice(["one", "opt", "many", "many"])
                dot = False
            elif free:
                c = rng.choice(free)
                ar = rng.choice(["one", "opt"])
                dot = rng.random() < 0.6
            else:
                continue
            out.append(dict(n=n, c=c, ar=ar, dot=dot, opt=ar == "opt", many=ar == "many"))
        return out
    items = [dict(k="node", n=n, traits=rng.sample(traits, rng.randint(0, len(traits))), ms=methods([n])) for n in nodes]
    items += [dict(k="class", n=n, vs=vs[n]) for n in classes]
    items += [dict(k="trait", n=n, ms=methods([x["n"] for x in items if x["k"] == "node" and n in x["traits"]])) for n in traits]
    rng.shuffle(items)
    return items


def spec_of(f):
    its = f["ast"]
    ms = lambda x: [dict(n=m["n"], c=m["c"], ar=m["ar"], dot=m["dot"]) for m in x["ms"]]
    return dict(nodes=[dict(n=x["n"], u=x["n"].upper(), tr=x["traits"], ms=ms(x)) for x in its if x["k"] == "node"],
                classes=[dict(n=x["n"], vs=x["vs"]) for x in its if x["k"] == "class"],
                traits=[dict(n=x["n"], ms=ms(x)) for x in its if x["k"] == "trait"],
                toks=[dict(n=t["n"], u=t["n"].upper()) for t in f["toks"]])


def probe(a):
    """Rust code that calls everything the block declares"""
    cls = {c["n"]: c for c in a["classes"]}
    node = {n["n"] for n in a["nodes"]}
    out = ["pub mod probe_ {", "use ::fall_tree::AstNode as _;", "use ::serde_json::{json as js, Value as V_};",
           "type N_<'f> = ::fall_tree::Node<'f>;", "fn path(_p: &mut ::std::vec::Vec<&'static str>) {}"]
    for n in a["nodes"]:
        out.append("fn p_%s(_: super::%s, _p: &mut ::std::vec::Vec<&'static str>) {}" % (n["n"], camel(n["n"])))
    for c in a["classes"]:
        arms = "".join("super::%s::%s(n) => { p.push(%s); p_%s(n, p) } " % (camel(c["n"]), camel(v), json.dumps(v), v) for v in c["vs"])
        out.append("fn p_%s(x: super::%s, p: &mut ::std::vec::Vec<&'static str>) { match x { %s } }" % (c["n"], camel(c["n"]), arms))
    out.append("""fn go<'f>(n: N_<'f>, out: &mut ::std::vec::Vec<N_<'f>>) { out.push(n); for c in n.children() { go(c, out) } }
fn guard<F: FnOnce() -> V_>(f: F) -> V_ {
    match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)) { Ok(v) => js!(["ok", v]), Err(_) => js!(["fails", []]) }
}
trait No_ { const YES: bool = false; }
impl<T_> No_ for T_ {}""")
    for n in [x["n"] for x in a["nodes"] + a["classes"]]:
        out.append("fn e_%s(x: super::%s, num: &dyn Fn(N_) -> usize) -> V_ { let mut p = ::std::vec::Vec::new(); p_%s(x, &mut p); js!([num(x.node()), p]) }" % (n, camel(n), n))
    for t in a["traits"]:
        out.append("struct I_%s<T_>(::std::marker::PhantomData<T_>);\nimpl<T_: super::%s<'static>> I_%s<T_> { const YES: bool = true; }" % (t["n"], camel(t["n"]), t["n"]))
    b = ["pub fn probe(file: &::fall_tree::File) -> V_ {",
         "let mut ns = ::std::vec::Vec::new(); go(file.root(), &mut ns); let ns = &ns;",
         "let num = |n: N_| ns.iter().position(|&m| m == n).unwrap() + 1; let num: &dyn Fn(N_) -> usize = &num;",
         "let (mut taken, mut below, mut above, mut calls) = (::std::vec::Vec::<V_>::new(), ::std::vec::Vec::<V_>::new(), ::std::vec::Vec::<V_>::new(), ::std::vec::Vec::<V_>::new());"]
    for n in [x["n"] for x in a["nodes"] + a["classes"]]:
        ty = "super::%s" % camel(n)
        b.append("""{
    let e = |x: %(ty)s| e_%(n)s(x, num);
    taken.push(js!(ns.iter().filter_map(|&n| <%(ty)s as ::fall_tree::AstNode>::wrap(n)).map(e).collect::<::std::vec::Vec<V_>>()));
    below.push(js!(::fall_tree::search::ast::descendants_of_type::<%(ty)s>(file.root()).into_iter().map(|x| num(x.node())).collect::<::std::vec::Vec<usize>>()));
    above.push(js!(ns.iter().map(|&n| ::fall_tree::search::ast::ancestor::<%(ty)s>(n).map(|x| num(x.node())).unwrap_or(0)).collect::<::std::vec::Vec<usize>>()));
}""" % dict(ty=ty, n=n))

    def entry(m, v):
        if m["dot"]:
            return "js!([%s.to_string()])" % v
        if m["c"] in cls or m["c"] in node:
            return "e_%s(%s, num)" % (m["c"], v)
        return "js!([num(%s), []])" % v
    for w in a["nodes"]:
        its = [("", m) for m in w["ms"]] + [(t["n"], m) for t in a["traits"] if t["n"] in w["tr"] for m in t["ms"]]
        if not its:
            continue
        b.append("for &n in ns { if let Some(w) = <super::%s as ::fall_tree::AstNode>::wrap(n) {" % camel(w["n"]))
        for t, m in its:
            call = "super::%s::%s(&w)" % (camel(t or w["n"]), m["n"])
            if m["ar"] == "one":
                body = "js!([%s])" % entry(m, call)
            elif m["ar"] == "opt":
                body = "match %s { Some(y) => js!([%s]), None => js!([]) }" % (call, entry(m, "y"))
            else:
                body = "js!(%s.map(|y| %s).collect::<::std::vec::Vec<V_>>())" % (call, entry(m, "y"))
            b.append("let r = guard(|| { %s }); calls.push(js!([%s, num(n), %s, %s, r[0], r[1]]));" % (body, json.dumps(w["n"]), json.dumps(t), json.dumps(m["n"])))
        b.append("} }")
    imp = ", ".join("[%s]" % ", ".join("<I_%s<super::%s<'static>>>::YES" % (t["n"], camel(n["n"])) for n in a["nodes"]) for t in a["traits"])
    b.append("let implements: V_ = js!([%s]);" % imp)
    b.append('js!({ "taken": taken, "below": below, "above": above, "calls": calls, "implements": implements })\n}\n}')
    return "\n".join(out + b) + "\npub use self::probe_::probe;\n"


def cases_of(rng, n, n_texts):
    out = []
    while len(out) < n:
        rules = G.Gen(rng, rng.choice(['all', 'C02', 'C03', 'C04', 'C06', 'C07', 'C09'])).grammar()
        case = GC.make(rng, rules, "none")
        case["f"]["ast"] = ast_for(rng, case["f"])
        case["src"] = S.render(rng, case["f"])
        case["ast"] = spec_of(case["f"])
        case["probe"] = probe(case["ast"])
        sent = G.Sent(rng, rules)
        case["texts"] = GC.texts_of(rng, case, [sent.text(rng.choice([0, 0.1]), 25) for _ in range(n_texts)])
        out.append(case)
    return out


def tree_of(rows):
    """<<type, start, end, parent, children>> from rows <<depth, type, start, end>>"""
    out, path = [], []
    for d, ty, s, e in rows:
        del path[d:]
        out.append([ty, s, e, path[-1] if path else 0, []])
        if path:
            out[path[-1] - 1][4].append(len(out))
        path.append(len(out))
    return out


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("ast-%d" % C.SEED)
    cases = cases_of(rng, 4000 if C.THOROUGH else 480, 10)
    rep.add(grammars=len(cases), inputs=sum(len(c["texts"]) for c in cases))
    for k in range(0, len(cases), 800):
        part = GC.generate(binary, cases[k:k + 800], rep)
        if part is None:
            break
        ok, out, bins = GC.build(part, prop)
        if not ok:
            GC.compile_error(rep, part, out)
            break
        outs = GC.run_bins(bins, part)
        lines, bad = [], False
        for c, o in zip(part, outs):
            ins, imp = [], []
            for t, x in zip(c["texts"], o.get("outs", [o])):
                if "rows" not in x:
                    rep.violation("generated wrappers fail on %r: %s" % (t, json.dumps(x)[:200]), dict(source=c["src"], text=t, outcome=x))
                    bad = True
                    break
                nodes, raw = tree_of(x["rows"]), t.encode()
                a = x["ast"]
                imp = a["implements"]
                ins.append(dict(nodes=nodes, len=len(raw), txt=[raw[n[1]:n[2]].decode() for n in nodes], taken=a["taken"], below=a["below"], above=a["above"], calls=a["calls"]))
                rep.add(calls=len(a["calls"]), calls_with_a_result=sum(1 for y in a["calls"] if y[5]))
            if bad:
                break
            lines.append(dict(ast=c["ast"], implements=imp, ins=ins))
        if bad:
            break
        d = C.work(prop)
        path = os.path.join(d, "ast.ndjson")
        C.write_ndjson(path, lines)
        res = C.tlc_or_die(C.tlc("AstTrace", env={"TRACE": path}, timeout=800, dirname=d), "ast")
        rep.tlc(res, sum(len(l["ins"]) for l in lines))
        if res.violated:
            st = res.last_state()
            i = int(st["c"]) - 1
            exp = res.printed("EXPECTED")
            rep.violation("generated wrappers are not what Ast.tla says: %s" % st["v"],
                          dict(source=part[i]["src"], what=st["v"], implements=lines[i]["implements"], expected=exp[-1]["e"] if exp else None, generated=part[i]["out"]))
            break
    rep.sample(dict(source=cases[0]["src"], text=cases[0]["texts"][0]))
    rep.finish()
