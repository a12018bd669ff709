"""C14, C15, C16, C20: grammar sources analysed by the implementation, judged by SemTrace.tla."""
import json, os, random
import common as C
import semsrc as S

SHIPPED = ["lang/fall/syntax/src/fall.fall", "lang/rust/syntax/src/rust.fall", "lang/json/src/json.fall", "lang/bnf/src/bnf.fall",
           "fall/test/src/arith.fall", "fall/test/src/sexp.fall", "fall/test/src/weird.fall"]


def shipped():
    out = []
    for p in SHIPPED:
        q = os.path.join("/repo", p)
        if os.path.exists(q):
            out.append(open(q).read())
    return out


def random_texts(rng, n, wild=None):
    out = []
    for i in range(n):
        w = rng.choice([0, 0.3, 1]) if wild is None else wild
        t = S.Src(rng, w).source()
        if rng.random() < 0.45:
            t = S.scramble(rng, t)
        out.append(t)
    return out


def judge(rep, cases, outs, name):
    lines, idx = [], []
    for i, (c, o) in enumerate(zip(cases, outs)):
        if "nodes" not in o:
            rep.violation("%s: the analysis does not return on %r: %s" % (name, c["text"][:200], json.dumps(o)[:200]), dict(case=c, outcome=o))
            return False
        o = dict(o)
        o["len"] = len(c["text"].encode())
        n = o.pop("n_runs")
        rep.add(runs=n, answers=sum(len(r["ans"]) for r in o["runs"]), sources=1, offsets=len(o.get("offsets", [])))
        lines.append(o)
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("SemTrace", env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, len(lines))
    if res.violated:
        st = res.last_state()
        i = int(st["c"]) - 1
        exp = [e for e in res.printed("EXPECTED") if e["c"] == i + 1]
        rep.violation("%s: %s differ(s) from what the source determines: %r" % (name, st["v"], cases[i]["text"][:300]),
                      dict(case=cases[i], what=st["v"], expected_problems=exp[-1]["p"] if exp else None, recorded=outs[i]))
        return False
    return True


def cases_for(prop, rng):
    k = 10 if C.THOROUGH else 1
    T = random_texts
    mk = lambda ts, **kw: [dict(dict(text=t, seeds=[], threads=[], editor=False, step=1), **kw) for t in ts]
    seeds = lambda n: [rng.randrange(1, 1 << 30) for _ in range(n)]
    fam = {}
    if prop == "C14":
        fam["random"] = [c for t in T(rng, 1500 * k) for c in mk([t], seeds=seeds(4))]
        f = S.forms()
        if not C.THOROUGH:
            f = [t for t in f if rng.random() < 0.12]
        fam["calls"] = mk(f, seeds=[2])
        fam["operators"] = mk(S.operators(), seeds=[3])
        fam["shipped"] = mk(shipped(), seeds=seeds(2))
    elif prop == "C15":
        fam["threads"] = [dict(text=t, seeds=[], threads=[[n, s] for n, s in zip([2, 3, 4, 8, 8], seeds(5))], editor=False, step=1)
                          for t in T(rng, 500 * k)]
    elif prop == "C16":
        fam["random"] = mk(T(rng, 400 * k, None), editor=True)
        fam["shipped"] = mk([t for t in shipped() if len(t) < 3000], editor=True, step=7)
    elif prop == "C20":
        fam["random"] = mk(T(rng, 1500 * k), editor=True, refs=False)
        fam["shipped"] = [c for t in shipped() for c in mk([t], editor=True, refs=False, step=max(1, len(t.encode()) // 60))]
    return fam


PARTS = ["rule a {}", "rule b { a zz }", "rule c(x) { x a }", "pub rule d { <c a> <b> }", "rule a { yy }",
         "pub rule e { <is_in xx> }", "pub rule f { <enter 'k' a> <is_in 'k'> }", "tokenizer { t 'x' u r\"y\" }",
         "pub rule g { t 'x' <nn a> }", "pub rule h { <layer a b> <with_skip t> }", "#[pratt] rule p { q }",
         "#[bin(2)] pub rule q { p t p }", "#[atom(1)] pub rule r { t }", "ast { node d: tt { } trait tt { m t } }",
         "pub rule i { <enter 'z' b> }", "tokenizer { t 'x' t 'y' }", "#[bin] pub rule s { p t p }"]


def small_source(rng):
    return "\n".join(rng.sample(PARTS, rng.randint(2, 4)))


def schedule_cases(rng):
    """Small sources, what each thread asks, and how deep to search the interleavings of their lock acquisitions."""
    out = []
    for i in range(100 if C.THOROUGH else 24):
        n = rng.choice([2, 2, 2, 3])
        progs = []
        for t in range(n):
            p = [rng.choice([-1, rng.randrange(40)]) for _ in range(rng.randint(1, 2))]
            progs.append(p)
        if rng.random() < 0.5:
            progs = [[-1]] * n
        deep = 3 if C.THOROUGH else 2
        out.append(dict(text=small_source(rng), programs=progs, scripts=[], bound=deep if n == 2 else deep - 1,
                        max=20000 if C.THOROUGH else 2500))
    return out


def machine(rep, rng):
    """The state machine of the query database explored by TLC, and its behaviours as schedules for the real one."""
    d = C.work(rep.prop)
    sets = [[[6], [3, 6]], [[6], [6], [6]], [[3, 6], [4, 5], [6]], [[6], [5], [3], [4]]]
    if C.THOROUGH:
        sets += [[[6], [6], [6], [6]], [[6, 3], [3, 6], [4, 6], [5, 6]], [[1, 6], [2, 6], [3, 6], [4, 6], [5, 6]]]
    cases = []
    for i, progs in enumerate(sets):
        path = os.path.join(d, "programs%d.json" % i)
        json.dump(progs, open(path, "w"))
        res = C.tlc_or_die(C.tlc("QueryDB", env=dict(PROGRAMS=path, EMIT="no"), timeout=600, dirname=d), "QueryDB")
        rep.tlc(res)
        if res.violated:
            C.tool_fail("QueryDB.tla does not satisfy %s" % res.violated)
        num = 1500 if C.THOROUGH else 150
        res = C.tlc("QueryDB", cfg="QueryDBRun", env=dict(PROGRAMS=path, EMIT="yes"), timeout=300, dirname=d, workers=1,
                    simulate="num=%d" % num, extra=["-depth", "500", "-seed", str(rng.randrange(1 << 30))])
        scripts = [x["s"] for x in res.printed("SCHEDULE")]
        if not scripts:
            C.tool_fail("no schedules from QueryDB.tla: " + res.out[-500:])
        for _ in range(6):
            n = len(progs)
            ps = [[-1]] * n if rng.random() < 0.5 else [[rng.choice([-1, rng.randrange(40)]) for _ in p] for p in progs]
            cases.append(dict(text=small_source(rng), programs=ps, scripts=scripts, bound=0, max=0))
    return cases


def run_schedules(rep, binary, rng):
    for name, cases in (("model", machine(rep, rng)), ("schedules", schedule_cases(rng))):
        outs = C.run_cases(binary, "schedules", cases, case_timeout=300)
        for o in outs:
            rep.add(decisions=o.pop("points", 0), searches=1, searches_complete=1 if o.pop("complete", False) else 0,
                    runs_let_go=o.pop("free", 0))
        if not judge(rep, cases, outs, name):
            return False
        rep.sample(dict(family=name, text=cases[0]["text"], programs=cases[0]["programs"]))
    return True


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    rng = random.Random("sem-%s-%d" % (prop, C.SEED))
    fam = cases_for(prop, rng)
    for name, cases in fam.items():
        outs = C.run_cases(binary, "sem", cases)
        if not judge(rep, cases, outs, name):
            break
        rep.sample(dict(family=name, text=cases[0]["text"][:400]))
    else:
        if prop == "C15":
            run_schedules(rep, binary, rng)
    rep.finish()
