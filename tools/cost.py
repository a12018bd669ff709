"""Estimates how many evaluation steps the specification needs for an input, so that generators can
leave out inputs whose evaluation is too long for TLC (nested skipping backtracks exponentially).
It decides nothing."""
import sys
sys.setrecursionlimit(100000)


class Over(Exception):
    pass


def steps(spec, toks, limit, spec_prev=True):
    """spec: records as read by the specification; toks: significant tokens [(ty, idx, txt)]."""
    n = [0]
    prev = [-1]

    def P(e, p, end, ctx, args):
        n[0] += 1
        if n[0] > limit:
            raise Over()
        x = spec[e - 1]
        k = x["k"]
        if k == "pub":
            r = P(x["b"], p, end, ctx, args)
            if r is not None:
                prev[0] = x["ty"]
            return r
        if k in ("pubrep", "cached"):
            return P(x["b"], p, end, ctx, args)
        if k == "tok":
            return p + 1 if p < end and toks[p][0] == x["ty"] else None
        if k == "or":
            for o in x["es"]:
                r = P(o, p, end, ctx, args)
                if r is not None:
                    return r
            return None
        if k == "and":
            for j, o in enumerate(x["es"]):
                r = P(o, p, end, ctx, args)
                if r is None:
                    return None if j < x["c"] else p
                p = r
            return p
        if k == "rep":
            while True:
                r = P(x["b"], p, end, ctx, args)
                if r is None:
                    return p
                p = r
        if k == "opt":
            r = P(x["b"], p, end, ctx, args)
            return p if r is None else r
        if k == "not":
            return p if P(x["b"], p, end, ctx, args) is None else None
        if k == "ctok":
            acc = ""
            q = p
            while q < end and (q == p or toks[q][1] == toks[q - 1][1] + 1):
                acc += toks[q][2]
                q += 1
                if acc == x["txt"]:
                    return q
                if len(acc) >= len(x["txt"]):
                    return None
            return None
        if k == "eof":
            return p if p == end else None
        if k == "any":
            return p + 1 if p < end else None
        if k == "layer":
            r = P(x["a"], p, end, ctx, args)
            if r is None:
                return None
            P(x["b"], p, r, ctx, args)
            return r
        if k == "skip":
            while True:
                if P(x["a"], p, end, ctx, args) is not None:
                    r = P(x["b"], p, end, ctx, args)
                    if r is not None:
                        return r
                if p >= end:
                    return None
                p += 1
        if k == "pratt":
            return go(x, 0, p, end, ctx, args)
        if k == "enter":
            return P(x["b"], p, end, ctx | {x["ctx"]}, args)
        if k == "exit":
            return P(x["b"], p, end, ctx - {x["ctx"]}, args)
        if k == "isin":
            return p if x["ctx"] in ctx else None
        if k == "call":
            a2 = dict(args)
            for a, v in x["args"]:
                a2[a] = args[spec[v - 1]["v"]] if spec[v - 1]["k"] == "var" else (v, args)
            return P(x["b"], p, end, ctx, a2)
        if k == "var":
            return P(args[x["v"]][0], p, end, ctx, args[x["v"]][1])
        if k == "prev":
            return p if prev[0] in x["tys"] else None
        if k == "inject":
            r = P(x["a"], p, end, ctx, args)
            return None if r is None else P(x["b"], r, end, ctx, args)
        raise Exception(k)

    def go(x, mn, p, end, ctx, args):
        r = None
        for o in x["atoms"]:
            r = P(o, p, end, ctx, args)
            if r is not None:
                break
        if r is None:
            for o in x["pre"]:
                q = P(o["op"], p, end, ctx, args)
                if q is not None:
                    r = go(x, o["prior"], q, end, ctx, args)
                    if r is not None:
                        prev[0] = o["ty"]
                        break
            if r is None:
                return None
        p = r
        while True:
            for o in x["inf"]:
                if o["prior"] < mn:
                    continue
                q = P(o["op"], p, end, ctx, args)
                if q is not None:
                    p = q
                    if o["rhs"]:
                        r = go(x, o["prior"] + 1, p, end, ctx, args)
                        if r is not None:
                            p = r
                    prev[0] = o["ty"]
                    break
            else:
                return p

    try:
        P(1, 0, len(toks), frozenset(), {})
        return n[0]
    except (Over, RecursionError):
        return None


def significant(raw):
    return [(t[0], i, t[3]) for i, t in enumerate(raw) if not t[2]]
