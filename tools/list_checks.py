"""C25: how trees are shown (ListTrace.tla) and the examples of grammar sources (ExampleTrace.tla)."""
import json, os, random, shutil, time
import common as C
import engine_checks as EC
import gen_checks as GC
import gensrc as S
import rust_checks as RC
from sem_checks import random_texts

WORKERS = 8
ODD = ["é", "€", "\"", "\\", "'", "\t", "\n", "\r\n", "  ", "{}", "\\n"]


def chars(t):
    return [[ord(c), len(c.encode()), c] for c in t]


def odd(rng, t):
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice(ODD) + t[i:]
    return t


def edit(rng, t):
    """one replacement, as ops on byte offsets"""
    i = rng.randrange(len(t) + 1)
    j = rng.randrange(i, min(len(t), i + 6) + 1)
    b = lambda k: len(t[:k].encode())
    ins = rng.choice(["", " ", "a", "\n", "//é\n", "\"", "fn x() {}"])
    ops = [["c", 0, b(i)], ["i", ins], ["c", b(j), b(len(t))]]
    return ops, t[:i] + ins + t[j:]


def ins_of(rng, texts, edits=1):
    out = []
    for t in texts:
        x, es = t, []
        for _ in range(rng.randint(0, edits)):
            o, x = edit(rng, x)
            es.append(o)
        out.append(dict(text=t, edits=es))
    return out


def plain(t):
    return all(32 <= ord(c) < 127 or c in "\n\t\r" or c.isalpha() or c == "€" for c in t)


def listings(rep, binary, rng):
    k = 8 if C.THOROUGH else 1
    cases = []
    for lang, texts in (("rust", [RC.Gen(rng).source() for _ in range(60 * k)]),
                        ("fall", random_texts(rng, 80 * k)),
                        ("json", ['{"a": [1, null, true], "é": {}}', "[]", "", "{", '["\\"", 1.5e3]'] * k),
                        ("arith", ["1 + 2 * (3)", "1 +", "", "a - -b"] * k), ("sexp", ["(a (b c) () 92)", ")", "(", "a\n b"] * k),
                        ("weird", ["foo bar", "", "1"] * k)):
        cases += [dict(lang=lang, ins=ins_of(rng, [t])) for t in (odd(rng, t[:1500]) for t in texts) if plain(t)]
    for _ in range(200 * k):
        c = EC.make_case(rng, "all", 4)
        c["ins"] = ins_of(rng, [odd(rng, i["text"]) for i in c["ins"]])
        if c["ins"]:
            cases.append(c)
    outs = C.run_cases(binary, "listing", cases)
    lines, src = [], []
    for c, o in zip(cases, outs):
        for i, steps in zip(c["ins"], o.get("outs") or [[dict(text=i["text"], out=o)] for i in c["ins"]]):
            for s in steps:
                if "rows" not in s["out"]:
                    rep.violation("showing the tree of %r fails: %s" % (s["text"][:200], json.dumps(s["out"])[:200]), dict(case=c, outcome=o))
                    return
                if not plain(s["text"]):
                    continue
                lines.append(dict(chars=chars(s["text"]), **s["out"]))
                src.append((c["lang"], i, s["text"]))
    rep.add(trees_shown=len(lines))
    d = C.work(rep.prop)
    path = os.path.join(d, "listings.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("ListTrace", env={"TRACE": path}, timeout=600, dirname=d), "listings")
    rep.tlc(res, len(lines))
    if res.violated:
        i = int(res.last_state()["c"]) - 1
        rep.violation("the tree of %r is not shown as it is" % src[i][2][:300], dict(lang=src[i][0], input=src[i][1], recorded=lines[i]))
    rep.sample(dict(listing=lines[0]["short"][:20]))


# ---------------------------------------------------------------- examples

def raw_string(rng, t):
    n = rng.choice([0, 0, 1, 2])
    while '"' + '#' * n in t:
        n += 1
    return 'r' + '#' * n + '"' + t + '"' + '#' * n


def example_cases(rng, n):
    out = []
    for c in GC.random_cases(rng, n, 3):
        f = c["f"]
        texts = [t for t in c["texts"] if plain(t)][:rng.choice([1, 2, 3, 4])] or [""]
        if rng.random() < 0.2:
            texts = [""]
        if rng.random() < 0.3:
            texts.append(rng.choice(texts))
        pads = [rng.choice(["", " ", "\n", "\n\n", "\t "]) + t + rng.choice(["", " ", "\n", "\n \n"]) for t in texts]
        f["tests"] = [raw_string(rng, t) for t in pads]
        src = S.render(rng, f)
        valid = rng.random() > 0.12
        if not valid:
            src += rng.choice(["\nrule zz { nosuch }", "\nrule zz { <nosuch 'x'> }", "\nrule zz"])
        ones = sorted(set([0, len(texts) - 1, len(texts), rng.randrange(len(texts) + 3)]))
        if not C.THOROUGH:
            ones = rng.sample(ones, 2)
        out.append(dict(f=f, src=src, bind=c["bind"], texts=texts, pads=pads, ones=ones, valid=int(valid)))
    return out


def examples(rep, binary, rng):
    env = C.build_env()
    env.pop("CARGO_TARGET_DIR", None)
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    d = C.work(rep.prop)
    tmps = [os.path.join(d, "tmp%d" % i) for i in range(WORKERS)]
    for t in tmps:
        shutil.rmtree(t, ignore_errors=True)
    os.makedirs(os.path.join(tmps[0], "fall-tests"))
    # what the examples are built with, as far as it is not in the sources
    shutil.copy(os.path.join(C.VERIF, "harness", "Cargo.lock"), os.path.join(tmps[0], "fall-tests"))
    cases = example_cases(rng, 400 if C.THOROUGH else 40)
    t = time.time()
    first = [c for c in cases if c["valid"]][0]
    C.run_cases(binary, "examples", [dict(src=first["src"], tmp=tmps[0], ones=[])], case_timeout=300, env=env)
    for x in tmps[1:]:
        shutil.copytree(tmps[0], x, copy_function=shutil.copy2)
    print("[rendering prepared %.1fs]" % (time.time() - t), flush=True)
    outs = C.run_cases(binary, "examples", [dict(src=c["src"], tmp=tmps[i % WORKERS], ones=c["ones"]) for i, c in enumerate(cases)],
                       workers=WORKERS, case_timeout=200, env=env)
    print("[rendered %.1fs]" % (time.time() - t), flush=True)
    for x in tmps:
        shutil.rmtree(x, ignore_errors=True)
    lines = []
    for c, o in zip(cases, outs):
        if "all" not in o:
            rep.violation("rendering the examples fails: %s: %s" % (json.dumps(o)[:200], c["src"][:300]), dict(case=c["src"], outcome=o))
            return
        lines.append(dict(f=S.to_spec(c["f"], c["texts"]), bind=c["bind"], tests=[chars(t) for t in c["pads"]], valid=c["valid"], **o))
    rep.add(sources_rendered=len(lines), examples_rendered=sum(len(c["texts"]) for c in cases))
    path = os.path.join(d, "examples.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("ExampleTrace", env={"TRACE": path}, timeout=600, dirname=d), "examples")
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        i = int(st["c"]) - 1
        exp = res.printed("EXPECTED")
        rep.violation("the rendered examples are not those of the source (%s): %r" % (st["v"], cases[i]["src"][:300]),
                      dict(source=cases[i]["src"], recorded=outs[i], expected=exp[-1]["e"] if exp else None))
    rep.sample(dict(source=cases[0]["src"][:600], examples=outs[0]["all"][:30]))


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("list-%d" % C.SEED)
    listings(rep, binary, rng)
    if not rep.violations:
        examples(rep, binary, rng)
    rep.finish()
