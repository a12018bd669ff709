"""C11, C12: trees of every small shape, random trees and real parse trees; structural edits and queries."""
import json, os, random
import common as C
from incr_checks import DOCS


def shapes(n, leaf_lens):
    """all trees of exactly n nodes: nested lists; a leaf is a length, an internal node a list"""
    memo = {}

    def forests(k):
        if k in memo:
            return memo[k]
        if k == 0:
            return [[]]
        out = []
        for first in range(1, k + 1):
            for t in trees(first):
                for rest in forests(k - first):
                    out.append([t] + rest)
        memo[k] = out
        return out

    def trees(k):
        res = [f for f in forests(k - 1)]
        if k == 1:
            res = list(leaf_lens) + [[]]
        return res
    return [f for f in forests(n - 1)]


def typed(shape, ty):
    return [ty(), shape if isinstance(shape, int) else [typed(s, ty) for s in shape]]


def length(t):
    return t[1] if isinstance(t[1], int) else sum(length(k) for k in t[1])


def rows(t):
    out = []

    def go(t, pos, parent):
        me = len(out) + 1
        out.append([t[0], pos, pos + length(t), parent, []])
        if parent:
            out[parent - 1][4].append(me)
        if not isinstance(t[1], int):
            p = pos
            for k in t[1]:
                go(k, p, me)
                p += length(k)
    go(t, 0, 0)
    return out


def rand_tree(r, n, tys=(1, 2, 3, 90, 91)):
    def go(n):
        if n <= 1:
            return [r.choice(tys), r.choice([0, 1, 1, 2, 3])] if r.random() < 0.85 else [r.choice(tys), []]
        kids = []
        n -= 1
        while n > 0:
            k = r.randrange(1, n + 1) if r.random() < 0.6 else 1
            kids.append(go(k))
            n -= k
        return [r.choice(tys), kids]
    t = go(max(2, n))
    return t


ALPH = "abcxyz(),"


def text_for(r, t):
    def go(t):
        if isinstance(t[1], int):
            return "".join(r.choice(" \n" if t[0] >= 90 else ALPH) for _ in range(t[1]))
        return "".join(go(k) for k in t[1])
    return go(t)


def by_offset(text):
    """code points by byte offset (-1 inside a character)"""
    out = []
    for ch in text:
        out += [ord(ch)] + [-1] * (len(ch.encode()) - 1)
    return out


# ---------------------------------------------------------------- C12

def query_cases(r, binary):
    cases, extra = [], []
    for n in (2, 3, 4, 5) if not C.THOROUGH else (2, 3, 4, 5, 6):
        for s in shapes(n, [0, 1, 2] if n < 5 else [0, 1]):
            if n == 5 and not C.THOROUGH and r.random() < 0.4:
                continue
            t = typed(s, lambda: r.choice([1, 1, 2, 3, 90, 91]))
            L = length(t)
            cases.append(dict(tree=t, text=text_for(r, t), full=True, at=list(range(1, n + 1)), offsets=list(range(L + 2)),
                              ranges=[[a, b] for a in range(L + 1) for b in range(a, L + 2)]))
    for _ in range(250 if not C.THOROUGH else 3000):
        n = r.choice([6, 9, 14, 25])
        t = rand_tree(r, n)
        L = length(t)
        cases.append(dict(tree=t, text=text_for(r, t), full=True, at=[1] + [r.randrange(1, n + 1) for _ in range(3)],
                          offsets=list(range(L + 1)),
                          ranges=[sorted([r.randrange(L + 1), r.randrange(L + 1)]) for _ in range(12)] + [[0, L]] + [[o, o] for o in range(L + 1)]))
    wss = [[90, 91]] * len(cases)
    for lang, docs in DOCS.items():
        ty = C.run_cases(binary, "types", [dict(lang=lang)])[0]["types"]
        ws = [x[0] for x in ty if x[2]]
        for d in docs:
            for _ in range(2 if not C.THOROUGH else 8):
                a, b = sorted([r.randrange(len(d)), r.randrange(len(d))])
                x = r.random()
                t = d[:120] if x < 0.3 else d[:a] + d[b:] if x < 0.6 else d[a:b] if x < 0.8 else d
                t = t[:160]
                off = [0]
                for ch in t:
                    off.append(off[-1] + len(ch.encode()))
                cases.append(dict(lang=lang, text=t, full=len(t) < 60, at=[1], offsets=r.sample(off, min(len(off), 12)),
                                  ranges=[sorted(r.choices(off, k=2)) for _ in range(15)] + [[o, o] for o in r.sample(off, min(len(off), 20))]
                                  + [[off[i], off[i]] for i in range(len(t)) if t[i] in " \n"][:12] + [[0, off[-1]]]))
                wss.append(ws)
    return cases, wss


def queries(rep, binary):
    r = random.Random("C12-%d" % C.SEED)
    cases, wss = query_cases(r, binary)
    outs = C.run_cases(binary, "query", cases)
    lines = []
    for c, ws, o in zip(cases, wss, outs):
        if "nodes" not in o:
            return rep.violation("queries fail: %s" % o, dict(case=c, outcome=o))
        lines.append(dict(text=by_offset(c["text"]), ws=ws, nodes=o["nodes"], leaves=o["leaves"], covers=o["covers"], per=o["per"]))
    path = os.path.join(C.work(rep.prop), "trees.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc("TreeTrace", env={"TRACE": path}, timeout=800, dirname=C.work(rep.prop))
    C.tlc_or_die(res, "TreeTrace")
    rep.tlc(res, len(lines))
    rep.add(trees=len(lines), leaf_queries=sum(len(l["leaves"]) for l in lines), range_queries=sum(len(l["covers"]) for l in lines),
            nodes_traversed=sum(len(l["per"]) for l in lines), exhaustive_up_to_nodes=5 if not C.THOROUGH else 6)
    rep.sample(lines[60])
    if res.violated:
        st = res.last_state()
        k = int(st["c"]) - 1 if "c" in st else 0
        rep.violation("query answers disagree with Tree.tla on %s" % json.dumps(cases[k].get("tree", cases[k]["text"])), dict(case=cases[k], recorded=outs[k]))


# ---------------------------------------------------------------- C11

def edits(rep, binary):
    r = random.Random("C11-%d" % C.SEED)
    d = C.work(rep.prop)
    runs = [("TreeEdit", [s for n in (2, 3, 4) for s in shapes(n, [0, 1, 2] if n < 4 else [0, 1])])]
    if C.THOROUGH:
        runs.append(("TreeEditDeep", [s for n in (2, 3) for s in shapes(n, [0, 1, 2])]))
        runs.append(("TreeEdit", shapes(5, [0, 1])))
    for cfg, ss in runs:
        ts = [typed(s, lambda: r.choice([1, 2, 90])) for s in ss]
        path = os.path.join(d, "shapes.ndjson")
        C.write_ndjson(path, [rows(t) for t in ts])
        res = C.tlc_or_die(C.tlc("TreeEdit", cfg, env={"TREES": path}, timeout=840, dirname=d, heap="10g"), cfg)
        rep.tlc(res)
        if res.violated:
            return rep.violation("TreeEdit.tla: %s" % res.violated, dict(out=res.out[-3000:]))
        hs = res.printed("HISTORY")
        by = {}
        for h in hs:
            by.setdefault(h["t"] - 1, []).append(h)
        cases, want = [], []
        for k, t in enumerate(ts):
            text = "abcdefghijk"[:length(t)]
            ins = lambda i: ["<%d>" % i, "", "+"][(i + k) % 3] if len(by[k]) % 2 else "<%d>" % i
            cases.append(dict(tree=t, text=text, histories=[[[o[0], o[1], ins(o[2])] for o in h["h"]] for h in by[k]]))
            want.append([["".join(text[x[1]] if x[0] == "t" else ins(x[1]) for x in h["out"])] for h in by[k]])
        if not compare(rep, binary, cases, want, "exhaustive"):
            return
    # larger trees, longer histories: expected results from the same definition, by TLC simulation of random ops
    cases, lines = [], []
    for _ in range(150 if not C.THOROUGH else 1500):
        n = r.choice([5, 8, 13, 20])
        t = rand_tree(r, n)
        hs = []
        for _ in range(8):
            hs.append([rand_op(r, n, length(t), i + 1) for i in range(r.choice([1, 2, 3, 4, 6]))])
        cases.append(dict(tree=t, text=text_for(r, t), histories=hs))
        lines.append(dict(nodes=rows(t), hs=hs))
    for lang, docs in DOCS.items():
        texts = [x[:150] for x in docs]
        trees = C.run_cases(binary, "fileedit", [dict(lang=lang, text=x, histories=[]) for x in texts])
        for x, o in zip(texts, trees):
            n = len(o["nodes"])
            L = len(x.encode())
            hs = [[rand_op(r, n, L, i + 1) for i in range(r.choice([1, 2, 3, 5]))] for _ in range(3)]
            cases.append(dict(lang=lang, text=x, histories=hs))
            lines.append(dict(nodes=o["nodes"], hs=hs))
    path = os.path.join(d, "edits.ndjson")
    C.write_ndjson(path, lines)
    res = C.tlc_or_die(C.tlc("TreeEditOf", env={"TREES": path, "TRACE": path}, timeout=800, dirname=d), "TreeEditOf")
    rep.tlc(res)
    outs = {o["c"]: o["outs"] for o in res.printed("OUT")}
    assert len(outs) == len(lines)
    want = []
    for k, c in enumerate(cases):
        b = c["text"].encode()
        c["histories"] = [[op[:2] + ["<%d>" % op[2]] + op[3:] for op in h] for h in c["histories"]]
        want.append([[b"".join(b[x[1]:x[1] + 1] if x[0] == "t" else b"<%d>" % x[1] for x in o).decode()] for o in outs[k + 1]])
    compare(rep, binary, cases, want, "random")


def rand_op(r, n, L, label):
    x = r.random()
    if x < 0.2:
        a, b = sorted([r.randrange(L + 1), r.randrange(L + 1)])
        return ["sub", [a, b], label]
    return [r.choice(["delete", "replace", "insert", "insert"]), r.randrange(1, n + 1), label]


def compare(rep, binary, cases, want, name):
    outs = C.run_cases(binary, "fileedit", cases)
    n = sum(len(c["histories"]) for c in cases)
    rep.cov["traces_validated_against_impl"] += n
    rep.add(**{"edit_histories_" + name: n, "trees_" + name: len(cases)})
    for c, w, o in zip(cases, want, outs):
        if "outs" not in o:
            rep.violation("structural edits fail: %s" % o, dict(case=c, outcome=o))
            return False
        for h, x, y in zip(c["histories"], w, o["outs"]):
            if x != y:
                rep.violation("structural edit %s gives %r, specification %r" % (json.dumps(h), y, x),
                              dict(tree=c.get("tree"), lang=c.get("lang"), text=c["text"], history=h, recorded=y, expected=x))
                return False
    rep.sample(dict(case={k: v for k, v in cases[-1].items() if k != "histories"}, history=cases[-1]["histories"][-1:], out=want[-1][-1:]))
    return True


def run(prop):
    rep = C.Report(prop, "model_checking")
    binary = C.build()
    (edits if prop == "C11" else queries)(rep, binary)
    rep.finish()
