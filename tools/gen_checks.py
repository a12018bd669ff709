"""C13: generated parsers against the meaning of their grammar source (Gen.tla)."""
import json, os, random, shutil, subprocess, time
import common as C
import grammar as G
import gensrc as S
import small

BINS = 8

VERB = {
    "until_bang": "fn until_bang(s: &str) -> Option<usize> { s.find('!').map(|i| i + 1) }",
}
BINDER = {
    "parity": "if (n % 2 == 0) == is_leading { adjacent.len() } else { 0 }",
    "one": "if adjacent.is_empty() { 0 } else { 1 }",
    "comments": """if n % 3 == 0 { return 0; }
    let take = |&&(t, s): &&(rt::NodeType, &str)| number(t) == 2 || s.len() == 1;
    if is_leading { adjacent.iter().rev().take_while(take).count() } else { adjacent.iter().take_while(take).count() }""",
}


def verbatim(rng, f, bind):
    out = []
    for t in f["toks"]:
        if t["f"] and VERB[t["f"]] not in out:
            out.append(VERB[t["f"]])
    if bind != "none":
        names = [t["n"].upper() for t in f["toks"]] + [r["n"].upper() for r in f["rules"] if r["pub"] and not any(n == "type" for n, _ in r["at"])]
        arms = ", ".join("%s => %d" % (n, i + 1) for i, n in enumerate(names))
        out.append("fn number(t: rt::NodeType) -> usize { match t { %s, _ => 0 } }" % arms)
        out.append("""#[allow(unused)]
fn whitespace_binder(ty: rt::NodeType, adjacent: Vec<(rt::NodeType, &str)>, is_leading: bool) -> usize {
    let n = number(ty);
    %s
}""" % BINDER[bind])
    if out and rng.random() < 0.5:
        out.append('#[allow(unused)] const ODD: &str = r##"verbatim "# text {{ 1 }} {% raw %} \\ "##;')
    return "\n".join(out) if out else None


def make(rng, rules, bind):
    f, conv = S.source_of(rng, rules)
    f["verb"] = verbatim(rng, f, bind)
    return dict(f=f, src=S.render(rng, f), bind=bind, sp=conv.sp)


def texts_of(rng, case, raw):
    out = []
    for t in raw:
        x = ''.join(case["sp"].get(c, c) for c in t)
        out.append(x)
        if rng.random() < 0.15 and x:
            i = rng.randrange(len(x))
            out.append(x[:i] + rng.choice(["", "a", "x", "1", "ab"]) + x[i + 1:])
    return list(dict.fromkeys(out))


def random_cases(rng, n, n_texts):
    out = []
    foci = ['all', 'C02', 'C03', 'C04', 'C05', 'C05', 'C05', 'C06', 'C06', 'C07', 'C09']
    while len(out) < n:
        rules = G.Gen(rng, rng.choice(foci)).grammar()
        case = make(rng, rules, rng.choice(["none", "none", "parity", "one", "comments"]))
        sent = G.Sent(rng, rules)
        case["texts"] = texts_of(rng, case, [sent.text(0.15, 14) for _ in range(n_texts)])
        out.append(case)
    return out


def small_cases(rng, n, n_texts):
    gs = []
    for p, w in (("C02", 2), ("C03", 3), ("C05", 6), ("C06", 3), ("C07", 1)):
        m = max(1, n * w // 15 // (len(small.FAMILIES[p]) + 1))
        gs += small.grammars(rng, p, m, 0, [3, 4, 5, 6, 7, 8])
    gs += small.pratt_tables(rng, max(4, n // 6))
    rng.shuffle(gs)
    ab = small.texts("ab", 3)
    out = []
    for fam, rules in gs[:n]:
        case = make(rng, rules, rng.choice(["none", "none", "parity", "one"]))
        if fam == 'pratt':
            raw = [''.join(rng.choice("aaab+*(") for _ in range(rng.randrange(1, 8))) for _ in range(n_texts)]
        else:
            raw = rng.sample(ab, min(len(ab), n_texts))
        case["texts"] = texts_of(rng, case, raw)
        out.append(case)
    return out


def generate(binary, cases, rep):
    outs = C.run_cases(binary, "gen", [dict(src=c["src"]) for c in cases])
    again = C.run_cases(binary, "gen", [dict(src=c["src"]) for c in cases], workers=4)
    good = []
    for c, o, p in zip(cases, outs, again):
        if "out" not in o:
            rep.violation("no parser is generated for a valid grammar: %s" % json.dumps(o)[:300], dict(source=c["src"], outcome=o))
            return None
        if not o["same"] or o != p:
            rep.violation("generating twice gives different output", dict(source=c["src"], one=o, two=p))
            return None
        c["out"] = o["out"]
        good.append(c)
    return good


def build(cases, name, ast=None):
    """compiles the generated parsers into BINS programs"""
    d = C.work(name)
    crate = os.path.join(d, "crate")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src", "bin"))
    runner = open(os.path.join(C.VERIF, "harness", "genrunner.rs")).read()
    with open(os.path.join(crate, "Cargo.toml"), "w") as fo:
        fo.write("""[package]
name = "genrun_%s"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
serde_json = "1"
fall_tree = { path = "/repo/fall/tree" }
fall_parse = { path = "/repo/fall/parse" }

[profile.dev]
opt-level = 0
debug = 0
incremental = false
""" % name.lower())
    shutil.copy(os.path.join(C.VERIF, "harness", "Cargo.lock"), crate)
    for b in range(BINS):
        mods = cases[b::BINS]
        md = os.path.join(crate, "src", "bin", "g%d" % b)
        os.makedirs(md)
        main = ["#![allow(warnings)]", "#[macro_use] extern crate fall_parse;"]
        for i, c in enumerate(mods):
            with open(os.path.join(md, "m%d.rs" % i), "w") as fo:
                fo.write(c["out"] + "\n" + (c.get("probe") or "pub fn probe(_: &fall_tree::File) -> serde_json::Value { serde_json::Value::Null }\n"))
            main.append("mod m%d;" % i)
        main.append("static LANGS: &[(fn() -> &'static fall_tree::Language, fn(&fall_tree::File) -> serde_json::Value)] = &[%s];" % ", ".join("(m%d::language, m%d::probe)" % (i, i) for i in range(len(mods))))
        with open(os.path.join(md, "main.rs"), "w") as fo:
            fo.write("\n".join(main) + "\n" + runner)
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline"], cwd=crate, env=C.build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors="replace")
    print("[generated parsers: build %.1fs]" % (time.time() - t), flush=True)
    return r.returncode == 0, out, [os.path.join(C.TARGET, "debug", "g%d" % b) for b in range(BINS)]


def run_bins(bins, cases):
    outs = [None] * len(cases)
    import threading

    def go(b):
        mods = list(range(b, len(cases), BINS))
        res = []
        data = "\n".join(json.dumps(dict(m=k, texts=cases[i]["texts"])) for k, i in enumerate(mods)) + "\n"
        while len(res) < len(mods):
            lines = data.split("\n")[len(res):]
            p = subprocess.run(["bash", "-c", 'ulimit -v 8000000; exec "$0"', bins[b]], input="\n".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            got = [json.loads(l) for l in p.stdout.decode().split("\n") if l.strip()]
            res += got
            if len(res) < len(mods):
                res.append({"abort": p.returncode})
        for k, i in enumerate(mods):
            outs[i] = res[k]
    ths = [threading.Thread(target=go, args=(b,)) for b in range(BINS)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    return outs


def judge(rep, cases, outs, name):
    lines, index = [], []
    for c, o in zip(cases, outs):
        if "outs" not in o:
            rep.violation("the generated parser does not return: %s" % json.dumps(o)[:200], dict(source=c["src"], texts=c["texts"], outcome=o))
            return False
        ins = []
        for t, x in zip(c["texts"], o["outs"]):
            if "rows" not in x:
                rep.violation("the generated parser fails on %r: %s" % (t, json.dumps(x)[:200]), dict(source=c["src"], text=t, outcome=x))
                return False
            ins.append(dict(chars=S.chars(t), rows=x["rows"]))
        lines.append(dict(f=S.to_spec(c["f"], c["texts"]), bind=c["bind"], ins=ins))
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("GenTrace", env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, sum(len(l["ins"]) for l in lines))
    if res.violated:
        st = res.last_state()
        c, j = int(st["c"]) - 1, int(st["j"]) - 1
        exp = res.printed("EXPECTED")
        rep.violation("the generated parser differs from the meaning of its source on %r" % cases[c]["texts"][j],
                      dict(source=cases[c]["src"], text=cases[c]["texts"][j], bind=cases[c]["bind"], recorded=lines[c]["ins"][j]["rows"],
                           expected=exp[-1]["e"] if exp else None, generated=cases[c]["out"]))
        return False
    return True


def compile_error(rep, cases, out):
    """the module the first error is in"""
    import re
    m = re.search(r"error[^\n]*\n\s*--> src/bin/g(\d+)/m(\d+)\.rs", out)
    if not m:
        print(out[-4000:])
        C.tool_fail("the generated parsers do not build")
    i = int(m.group(1)) + BINS * int(m.group(2))
    rep.violation("the generated parser does not compile: %s" % out[m.start():m.start() + 400].replace("\n", " "), dict(source=cases[i]["src"], generated=cases[i]["out"], errors=out[m.start():m.start() + 3000]))


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("gen-%d" % C.SEED)
    n = 2000 if C.THOROUGH else 400
    cases = random_cases(rng, n, 20) + small_cases(rng, 6 * n, 12)
    rep.add(grammars=len(cases), inputs=sum(len(c["texts"]) for c in cases))
    for k in range(0, len(cases), 800):
        part = generate(binary, cases[k:k + 800], rep)
        if part is None:
            break
        ok, out, bins = build(part, prop)
        if not ok:
            compile_error(rep, part, out)
            break
        outs = run_bins(bins, part)
        if not judge(rep, part, outs, "gen"):
            break
    rep.sample(dict(source=cases[0]["src"], text=cases[0]["texts"][0]))
    rep.finish()
