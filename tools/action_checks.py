"""C17: formatting and editor actions on grammar sources, judged by ActionsTrace.tla."""
import json, os, random, re
import common as C
import semsrc as S
from sem_checks import shipped, small_source


def respace(rng, text, p):
    """Other white space where tokens stay apart anyway: around punctuation."""
    ts = re.findall(r"\s+|\w+|r#*\"[^\"]*\"#*|'[^']*'|//[^\n]*|.", text)
    out = []
    for i, t in enumerate(ts):
        punct = lambda k: 0 <= k < len(ts) and ts[k] in "|<>{}*?,()[]#"
        if t.isspace() and (punct(i - 1) or punct(i + 1)) and rng.random() < p:
            if out and out[-1].startswith("//"):
                t = "\n" + rng.choice(["", " "])
            else:
                t = rng.choice(["", "", " ", "  ", "\t", "\n", " \n ", "   "])
        elif t in ("|", "<", ">", ",") and rng.random() < p * 0.6:
            t = rng.choice(["", " ", "  ", "\n"]) + t + rng.choice(["", " ", "  ", "\n", " // c\n", "//\n"])
        out.append(t)
    return "".join(out)


def offsets(text):
    """byte offsets at character boundaries"""
    out, o = [0], 0
    for ch in text:
        o += len(ch.encode())
        out.append(o)
    return out


def ranges(rng, text, n):
    os_ = offsets(text)
    b = text.encode()
    marks = [o for o in os_ if b[o:o + 1] in (b"|", b",") or b[max(0, o - 1):o] in (b"|", b",")]
    # ends of words and punctuation
    edges = [o for o in os_ if re.match(rb"\w\W|\W\w|\W\W", b[max(0, o - 1):o + 1])] or os_
    out = [[o, o] for o in marks[:40]]
    for _ in range(n):
        a, z = rng.choice(edges if rng.random() < 0.7 else os_), rng.choice(edges if rng.random() < 0.7 else os_)
        if rng.random() < 0.7:
            z = rng.choice([o for o in os_ if a <= o <= a + 12])
        out.append([min(a, z), max(a, z)])
    return out


TINY = ["{%s}" % s for s in (" a | b ", "a|b", "| a", "a |", "|", "||", " a b c ", "<not a>", "< not a >", "a* b", "{a|b} c", "a // c\n| b", "a | // c\n b",
                            "<x a|b>", "<|a>", "< | a", "a > | b", "|<eof>|", "a\t|\tb", "a  |  b", "a\n|b", "{a\nb}|c", "c|{a\nb}", "<c 'x' a>|b")]


def texts(rng, n):
    out = ["rule x " + t for t in TINY] + ["pub rule x(a, b,c , d) " + t + "\nrule z {}" for t in TINY]
    out += ["< |", "] < | >", "|  |", "< >", "rule a { ] < | b }", "rule x { a } < | <", "#[a ,b(1), c ] rule x {}", "ast { node a : b , c { } }",
            "rule x { a , b }", "rule a(x //c\n, y) {}", "rule a(x,,y) {}"]
    for _ in range(n):
        t = S.Src(rng, rng.choice([0, 0.3])).source() if rng.random() < 0.6 else small_source(rng)
        t = respace(rng, t, rng.choice([0, 0.3, 0.8]))
        if rng.random() < 0.35:
            t = S.scramble(rng, t)
        out.append(t)
    return out


def judge(rep, cases, outs, name):
    lines = []
    for c, o in zip(cases, outs):
        if "nodes" not in o:
            rep.violation("%s: the editor does not return on %r: %s" % (name, c["text"][:200], json.dumps(o)[:200]), dict(case=c, outcome=o))
            return False
        rep.add(sources=1, selections=len(c["ranges"]))
        lines.append(o)
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("ActionsTrace", env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        i = int(st["c"]) - 1
        exp = [e for e in res.printed("EXPECTED") if e["c"] == i + 1]
        rep.violation("%s: %s: not what Actions.tla says for %r" % (name, st["v"], cases[i]["text"][:300]),
                      dict(case=cases[i], what=st["v"], expected=exp[-1]["e"] if exp else None, recorded=outs[i]))
        return False
    return True


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("actions-%d" % C.SEED)
    fam = {}
    fam["random"] = [dict(text=t, ranges=ranges(rng, t, 40)) for t in texts(rng, 6000 if C.THOROUGH else 700)]
    every = [t for t in texts(rng, 200 if C.THOROUGH else 20) if len(t) < 60]
    fam["all selections"] = [dict(text=t, ranges=[[a, z] for a in offsets(t) for z in offsets(t) if a <= z]) for t in every]
    fam["shipped"] = [dict(text=t, ranges=ranges(rng, t, 40)) for t in shipped() if C.THOROUGH or len(t) < 3000]
    for name, cases in fam.items():
        outs = C.run_cases(binary, "actions", cases)
        if not judge(rep, cases, outs, name):
            break
        rep.sample(dict(family=name, text=cases[-1]["text"][:300]))
    rep.finish()
