"""C01: the result set lists every distinct violation exactly once."""
from hypothesis import strategies as st
from util import *

NEEDS = dict(rules=["ShortVariableNameRule", "EmptyIfStatementRule", "TooManyParametersRule"], reporters=[])
RULE = ("histories of violation sets, errors, warnings and checker bugs with colliding field values, then an arbitrary "
        "sequence of queries on the raw and the de-duplicated view against a list model (non-trivial: at least one duplicate "
        "and two distinct violations); and real runs naming files repeatedly (non-trivial: a repeated file with violations)")

small = st.sampled_from([1, 2, 3, 4, 6, 8, 12, 16, 17, 32, 64, 256, 1024])
viol = st.tuples(st.integers(0, 3), small, small, small, small,
                 st.sampled_from(["", "a", "b", "ab", "ba", "message one", "message two"]))
QUERIES = ["all", "errors", "warnings", "bugs", "n", "p1", "p2", "p3", "files", "fileswith", "nerr", "haserr",
           "nwarn", "haswarn", "nbug", "hasbug"]
paths = st.sampled_from(["/a.c", "/b.c", "/a.cc", "/c/a.c", "a.c"])


# a twin of a violation differs from it in one field, or in two in ways that mixing them by shifts may cancel
TWINS = [{k: None} for k in range(6)] + [{1: 2, 2: 0}, {1: 4, 3: 0}, {1: 8, 4: 0}, {2: 2, 3: 0}, {2: 6, 4: 0}, {3: 4, 4: 0}, {1: 0, 3: 0}, {2: 0, 4: 0}]


def twin(v, t, k):
    v = list(v)
    for f, s in TWINS[t].items():
        v[f] = (v[f] + k) % 4 if f == 0 else v[f] + "x" if f == 5 else v[f] + k if s is None else v[f] ^ (k << s)
    return tuple(v)


class Api(Sub):
    name = "api"
    quick, thorough = 500, 6000
    RULES = [("rule one", "cat", 1), ("rule two", "cat", 2), ("rule three", "dog", 3), ("rule four", "dog", 2)]

    def strategy(self):
        vpool = st.lists(viol, min_size=1, max_size=5)

        def ops(pool):
            v = st.one_of(st.sampled_from(pool), st.builds(twin, st.sampled_from(pool), st.integers(0, len(TWINS) - 1), st.sampled_from([1, 1, 2, 3])), viol)
            return st.tuples(
                st.lists(st.one_of(
                    st.tuples(st.just("set"), paths, st.lists(v, max_size=6)),
                    st.tuples(st.sampled_from(["e", "w", "b"]), paths, v)), max_size=10),
                st.lists(st.tuples(st.sampled_from(["raw", "uniq"]), st.sampled_from(QUERIES)), min_size=1, max_size=12))
        return vpool.flatmap(ops).map(lambda t: {"ops": [list(map(_l, o)) for o in t[0]], "q": [list(q) for q in t[1]]})

    def test(self, ctx, case):
        items = [len(self.RULES)]
        for n, c, p in self.RULES:
            items += [n, c, p]
        items.append(len(case["ops"]))
        sets, lists = [], {"e": [], "w": [], "b": []}
        for op in case["ops"]:
            if op[0] == "set":
                items += ["set", len(op[2])]
                vs = [(v[0], op[1], *v[1:]) for v in op[2]]
                for v in vs:
                    items += list(v)
                sets.append(vs)
            else:
                v = (-1, op[1], *op[2][1:])
                items += [op[0], *v]
                lists[op[0]].append(v)
        qs = case["q"] + [["uniq", "all"], ["raw", "all"], ["uniq", "n"]]
        items.append(len(qs))
        for q in qs:
            items += q
        r = api_reader(ctx, "@results", items)
        flat = [v for s in sets for v in s]

        def uniq(x):
            out = []
            for v in x:
                if v not in out:
                    out.append(v)
            return out
        view = {"raw": {"all": flat, "e": lists["e"], "w": lists["w"], "b": lists["b"]}}
        view["uniq"] = {k: uniq(v) for k, v in view["raw"].items()}
        for which, q in qs:
            m = view[which]
            if q in ("all", "errors", "warnings", "bugs"):
                want = m[{"all": "all", "errors": "e", "warnings": "w", "bugs": "b"}[q]]
                got = []
                for _ in range(r.num()):
                    got.append((r.num(), r.str(), r.num(), r.num(), r.num(), r.num(), r.str()))
                eq(got, want, f"{which}.{q}")
                continue
            got = r.num()
            if q == "n":
                want = len(m["all"])
            elif q[0] == "p":
                want = sum(1 for v in m["all"] if self.RULES[v[0]][2] == int(q[1:]))
            elif q == "files":
                want = len(sets)
            elif q == "fileswith":
                want = len({v[1] for v in flat})
            else:
                n = len(m[{"err": "e", "warn": "w", "bug": "b"}[q.replace("has", "").replace("n", "", 1) if q[0] == "n" else q[3:]]])
                want = n if q[0] == "n" else int(n > 0)
            eq(got, want, f"{which}.{q}")
        u = view["uniq"]["all"]
        return ["dup" if len(u) < len(flat) and len(u) > 1 else "",
                "diag-dup" if any(len(view["uniq"][k]) < len(view["raw"][k]) for k in "ewb") else ""]


def _l(x):
    if isinstance(x, tuple):
        return [_l(y) for y in x]
    if isinstance(x, list):
        return [_l(y) for y in x]
    return x


class Cli(Sub):
    name = "cli"
    quick, thorough = 40, 500
    BODY = ["int f{k}(int x) {{ if (x) {{ }} return 1; }}\n", "int g{k}(int aaa, int yy) {{ return aaa; }}\n",
            "int h{k}(void) {{ int q = 0; if (q) ; return q; }}\n", "int i{k};\n",
            "int w{k}(int a1,int a2,int a3,int a4,int a5,int a6,int a7,int a8,int a9,int b1,int b2) {{ return 0; }}\n",
            "#define M{k}(v) int v; if (v) ;\nint m{k}(void) {{ M{k}(q) return 0; }}\n"]

    def strategy(self):
        return st.fixed_dictionaries({
            "files": st.lists(st.lists(st.integers(0, len(self.BODY) - 1), max_size=4), min_size=1, max_size=3),
            "order": st.lists(st.integers(0, 2), min_size=1, max_size=5)})

    def test(self, ctx, case):
        i = ctx.inst(rules=NEEDS["rules"])
        srcs = []
        for k, f in enumerate(case["files"]):
            srcs.append(write(i.path("w", f"f{k}.c"), "".join(self.BODY[b].format(k=n) for n, b in enumerate(f)) or "int z;\n"))
        order = [srcs[o % len(srcs)] for o in case["order"]]
        one = {}
        for s in dict.fromkeys(order):
            one[s] = [v.key() for v in need_report(oclint(ctx, i, ["-report-type", "verif", "-allow-duplicated-violations", s, "--", "-w"])).violations]
        raw = [k for s in order for k in one[s]]
        uniq = list(dict.fromkeys(raw))
        dup = need_report(oclint(ctx, i, ["-report-type", "verif", "-allow-duplicated-violations", *order, "--", "-w"]))
        unq = need_report(oclint(ctx, i, ["-report-type", "verif", *order, "--", "-w"]))
        for rep, want, what in ((dup, raw, "with duplicates"), (unq, uniq, "without duplicates")):
            got = [v.key() for v in rep.violations]
            eq(got, want, f"violations {what}")
            eq(rep.n, len(want), f"count {what}")
            for p in (1, 2, 3):
                eq(getattr(rep, f"p{p}"), sum(1 for k in want if k[2] == p), f"priority {p} count {what}")
            eq(rep.files, len(order), f"number of files {what}")
            eq(rep.fileswith, sum(1 for s in one if one[s]), f"number of files with violations {what}")
        return ["repeat" if len(uniq) < len(raw) else ""]


def subs(tier):
    return [Api(), Cli()]
