"""C19: the file index, FileIndex.tla explored by TLC, its histories replayed on the real index."""
import json, os, random, shutil
import common as C

TOPS = ["r", "s", "o"]


def model(rep):
    d = C.work(rep.prop)
    res = C.tlc_or_die(C.tlc("FileIndex", cfg="FileIndexBig" if C.THOROUGH else None, timeout=3000, heap="16g", dirname=d), "model")
    rep.tlc(res)
    if res.violated:
        C.tool_fail("FileIndex.tla violates " + res.violated)
    # the invariant can tell a wrong index from a right one
    res = C.tlc("FileIndex", cfg="FileIndexOld", timeout=600, dirname=d)
    if res.violated != "Converged":
        C.tool_fail("FileIndex.tla accepts an index that watches too late")


def drawn(rep, n, seed):
    """histories from random behaviours of the model, those with changes during indexing first"""
    d = C.work(rep.prop)
    res = C.tlc("FileIndex", cfg="FileIndexRun", simulate="num=%d" % (n // 8 + 1), extra=["-depth", "200", "-seed", str(seed)], timeout=900, dirname=d)
    if res.violated:
        C.tool_fail("FileIndex.tla violates " + res.violated)
    hs = res.printed("HIST")
    if not hs:
        C.tool_fail("no histories\n" + res.out[-2000:])
    rep.tlc(res)
    return hs


def histories(rng, hs):
    out = []
    for steps in hs:
        roots = rng.choice([["r", "s"], ["r", "s"], ["s", "r"], ["r"], ["s"]])
        roots = [[r] for r in roots]
        x = rng.random()
        if x < 0.1:
            roots.insert(0, ["missing"])      # a root that is not there
        elif x < 0.2:
            roots = [["r"], ["r", "d"]]
        elif x < 0.25:
            roots = [["r", "d"], ["r"]]
        out.append(dict(tops=TOPS, roots=roots, steps=steps))
    return out


ALIAS = {"a.x": ["a.x", "a.x", "\u00e9.x", "x.x", "..x", "a.b.x", "a .x", "A.x"], "b.x": ["b.x", "b.x", "b.y.x", "\u03bb b.x", "bb.x", "x.x.x"],
         "a.y": ["a.y", "ax", "x", ".x", "a.X", "a.xx", "a.x~", "a.x.", "a.x.y", "a.x#", "a. x"], "d": ["d", "d", "d.x", "dx", ".d", "\u00e9 d"]}


def renamed(rng, case):
    """The same history with other names."""
    m = {k: rng.choice(v) for k, v in ALIAS.items()}
    def go(v):
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, dict):
            return {k: x if k in ("op", "at") else go(x) for k, x in v.items()}
        return m.get(v, v) if isinstance(v, str) else v
    return dict(go(case), names=[[n, [ord(c) for c in n]] for n in sorted(m.values())])


def score(steps):
    kinds = set((s["at"], s["o"]["op"]) for s in steps if s["at"] != "settle")
    moved = sum(1 for s in steps if s["at"] not in ("pre", "settle") and s["o"]["op"] in ("mv", "rm"))
    inside = sum(1 for s in steps if s["at"] in ("before", "after"))
    return len(kinds) + 2 * moved + 3 * inside


def judge(rep, cases, outs, name):
    d = C.work(rep.prop)
    path = os.path.join(d, name + ".ndjson")
    for c, o in zip(cases, outs):
        if "ops" not in o:
            rep.violation("the index does not work in a history: %s" % json.dumps(o)[:300], dict(case=c, outcome=o))
            return False
        o["names"] = c["names"]
    C.write_ndjson(path, outs)
    res = C.tlc_or_die(C.tlc("FileIndexTrace", env={"TRACE": path}, timeout=800, dirname=d), name)
    rep.tlc(res, len(outs))
    if res.violated:
        exp = res.printed("EXPECTED")[-1]
        i = exp["c"] - 1
        if exp["w"] == "file system":
            C.tool_fail("FileSystem.tla does not describe the file system: %s" % json.dumps(outs[i]["ops"]))
        rep.violation("%s: %s: the index is not what the files make it: %s" % (name, exp["w"], json.dumps(outs[i]["ops"])[:1500]),
                      dict(case=cases[i], what=exp["w"], held_and_wanted=exp["e"], recorded=outs[i]))
        return False
    return True


# what random behaviours reach rarely
def o(op, p, **kw):
    r = dict(op=op, p=p.split("/"))
    if "q" in kw:
        kw["q"] = kw["q"].split("/")
    r.update(kw)
    return r


def at(a, op, f=""):
    return dict(at=a, file=f.split("/") if f else [], o=op)


SETTLE = dict(at="settle")
PRE = [at("pre", o("mkdir", "r/d")), at("pre", o("write", "r/d/a.x", c=1)), at("pre", o("write", "r/d/b.x", c=2)),
       at("pre", o("mkdir", "r/d/d")), at("pre", o("write", "r/d/d/a.x", c=3)), at("pre", o("write", "r/a.x", c=1))]
DIRECTED = [
    PRE + [SETTLE, at("free", o("rm", "r/d")), SETTLE],
    PRE + [SETTLE, at("free", o("mv", "r/d", q="o/d")), SETTLE],
    PRE + [SETTLE, at("free", o("mv", "r/d", q="s/d")), SETTLE, at("free", o("write", "s/d/d/a.x", c=2)), SETTLE, at("free", o("mv", "s/d", q="r/d")), SETTLE],
    PRE + [SETTLE, at("free", o("mv", "r/d", q="r/a.y")), SETTLE, at("free", o("mv", "r/a.y/d", q="r/d")), SETTLE],
    PRE + [SETTLE, at("free", o("rm", "r/d")), SETTLE, at("free", o("write", "r/d", c=2)), SETTLE],
    PRE + [SETTLE, at("free", o("rm", "r/a.x")), SETTLE, at("free", o("mkdir", "r/a.x")), at("free", o("write", "r/a.x/a.x", c=2)), SETTLE,
           at("free", o("rm", "r/a.x")), SETTLE, at("free", o("write", "r/a.x", c=3)), SETTLE],
    PRE + [SETTLE, at("free", o("write", "r/a.x", c=0)), SETTLE, at("free", o("write", "r/a.x", c=2)), SETTLE],
    PRE + [SETTLE, at("free", o("mv", "r/a.x", q="r/a.y")), SETTLE, at("free", o("mv", "r/a.y", q="r/b.x")), SETTLE],
    PRE + [SETTLE, at("free", o("mv", "r/d/a.x", q="r/a.x")), SETTLE, at("free", o("write", "r/a.x", c=3)), SETTLE],
    PRE + [at("before", o("rm", "r/d/d"), "r/d/a.x"), SETTLE],
    PRE + [at("after", o("mv", "r/d", q="o/d"), "r/d/b.x"), SETTLE],
    PRE + [at("before", o("write", "s/b.x", c=2), "r/a.x"), at("after", o("write", "r/a.x", c=2), "r/a.x"), SETTLE],
    PRE + [at("after", o("mkdir", "s/d"), "r/a.x"), at("after", o("write", "s/d/a.x", c=2), "r/a.x"), at("after", o("rm", "r/d/a.x"), "r/d/a.x"), SETTLE],
    PRE + [SETTLE, at("free", o("write", "r/a.x", c=2)), at("after", o("rm", "r/d"), "r/a.x"), at("after", o("write", "s/a.x", c=3), "r/a.x"), SETTLE],
    # a file written again as soon as it was read
    PRE + [SETTLE, at("free", o("write", "r/a.x", c=2)), at("after", o("write", "r/a.x", c=3), "r/a.x"), SETTLE],
    PRE + [SETTLE, at("free", o("write", "r/d/d/b.x", c=2)), at("after", o("write", "r/d/d/b.x", c=0), "r/d/d/b.x"), SETTLE],
    PRE + [SETTLE, at("free", o("write", "r/d/a.x", c=2)), at("before", o("write", "r/d/a.x", c=3), "r/d/a.x"), at("after", o("write", "r/d/a.x", c=1), "r/d/a.x"), SETTLE],
    PRE + [SETTLE, at("free", o("write", "r/d/a.x", c=2)), at("after", o("rm", "r/d/a.x"), "r/d/a.x"), SETTLE],
    PRE + [at("pre", o("mv", "r/d", q="o/d")), SETTLE, at("free", o("mv", "o/d", q="r/d")), at("after", o("mv", "r/a.x", q="s/a.x"), "r/d/a.x"), SETTLE],
]


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    model(rep)
    rng = random.Random("index-%d" % C.SEED)
    scratch = C.work(prop)
    size, rounds = 50, (16 if C.THOROUGH else 2)
    for k in range(rounds):
        hs = drawn(rep, 400, C.SEED * 1000 + k)
        rng.shuffle(hs)
        hs.sort(key=lambda h: -score(h))
        hs = hs[:size // 2] + rng.sample(hs[size // 2:], min(size - size // 2, len(hs) - size // 2))
        cases = histories(rng, hs)
        if k == 0:
            cases[:len(DIRECTED)] = [dict(tops=TOPS, roots=[["r"], ["s"]], steps=h) for h in DIRECTED]
        cases = [renamed(rng, c) for c in cases]
        outs = C.run_cases(binary, "findex", [dict(batch=cases)], case_timeout=600, env={"SCRATCH": scratch})[0]
        if not isinstance(outs, list):
            rep.violation("a batch of histories does not end: %s" % json.dumps(outs), dict(cases=cases, outcome=outs))
            break
        rep.add(histories=len(cases), changes=sum(len(o.get("ops", [])) for o in outs), pauses=sum(len(o.get("snaps", [])) for o in outs),
                during_indexing=sum(1 for c in cases for s in c["steps"] if s["at"] in ("before", "after")))
        if not judge(rep, cases, outs, "histories%d" % k):
            break
        rep.sample(cases[-1]["steps"])
    rep.assumptions.append("the notification service reports every change of a watched path, changes of related paths being more than 3 s apart")
    rep.finish()
