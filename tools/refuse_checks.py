"""C23: which grammar sources code is generated for; judged by RefuseTrace.tla."""
import json, os, random
import common as C
import semsrc as S
import ast_checks as A
import gen_checks as GC
import gensrc as GS
import grammar as G
from sem_checks import random_texts, shipped


def judge(rep, cases, outs, name):
    lines = []
    for c, o in zip(cases, outs):
        if "nodes" not in o or o["out"] == "failed":
            rep.violation("%s: generating does not return on %r: %s" % (name, c["text"][:300], o.get("why") or json.dumps(o)[:200]), dict(case=c, outcome=o))
            return False
        rep.add(sources=1, **{o["out"]: 1})
        lines.append({k: o[k] for k in ("nodes", "txt", "out", "same")})
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("RefuseTrace", env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        i = int(st["c"]) - 1
        rep.violation("%s: the generator gives %s (%s) where the source determines %s: %r" % (name, outs[i]["out"], outs[i]["why"][:100], st["v"], cases[i]["text"][:300]),
                      dict(case=cases[i], expected=st["v"], recorded=outs[i]))
        return False
    return True


def dent(rng, t):
    """Take out or repeat a piece of a source."""
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if not t:
            break
        i = rng.randrange(len(t))
        j = min(len(t), i + rng.choice([1, 1, 2, 3, 5, 8, 20]))
        t = t[:i] + t[j:] if rng.random() < 0.7 else t[:j] + t[i:]
    return t


def grammars(rng, n):
    out = []
    for _ in range(n):
        case = GC.make(rng, G.Gen(rng, rng.choice(["all", "C02", "C03", "C04", "C05", "C06"])).grammar(), "none")
        if rng.random() < 0.6:
            case["f"]["ast"] = A.ast_for(rng, case["f"])
        out.append(GS.render(rng, case["f"]))
    return out


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("refuse-%d" % C.SEED)
    k = 10 if C.THOROUGH else 1
    fam = {}
    fam["random"] = random_texts(rng, 1000 * k)
    fam["calls"] = [t for t in S.forms() if C.THOROUGH or rng.random() < 0.08]
    fam["operators"] = ["tokenizer { plus '+' }\n" + t for t in S.operators()]
    fam["dented"] = [dent(rng, t) for t in grammars(rng, 800 * k)]
    small = [t for t in shipped() if len(t) < 3000]
    fam["dented shipped"] = [dent(rng, rng.choice(small)) for _ in range(300 * k)]
    fam["shipped"] = shipped()
    for name, texts in fam.items():
        cases = [dict(text=t) for t in texts]
        outs = C.run_cases(binary, "refuse", cases)
        if not judge(rep, cases, outs, name):
            break
        rep.sample(dict(family=name, text=cases[0]["text"][:400], outcome=outs[0].get("out")))
    rep.finish()
