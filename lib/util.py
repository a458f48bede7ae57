"""Helpers shared by the checks."""
import os
from hypothesis import strategies as st
from pbt import Sub, Fail, Discard  # noqa: F401
from oc import enc


def nets(items):
    return enc([x if isinstance(x, (str, bytes)) else str(x) for x in items])


class NetReader:
    def __init__(self, raw, pos=0):
        self.raw, self.pos = raw, pos

    def str(self):
        c = self.raw.index(b":", self.pos)
        n = int(self.raw[self.pos:c])
        s = self.raw[c + 1:c + 1 + n]
        if len(s) != n:
            raise Fail("output ends early")
        self.pos = c + 1 + n
        return s.decode("utf-8", "surrogateescape")

    def num(self):
        return int(self.str())

    def end(self):
        return self.pos >= len(self.raw)


def write(path, data):
    if isinstance(data, str):
        data = data.encode("utf-8", "surrogateescape")
    with open(path, "wb") as f:
        f.write(data)
    return path


def api(ctx, what, items, extra=()):
    """Runs one core-API script in a fresh process; returns the Run."""
    i = ctx.inst(rules=[])
    p = write(i.path("script"), nets(items))
    r = i.s.run([what, *extra, p], i.dir)
    if r.sig or r.rc != 0:
        raise Fail(f"{what} ended abnormally: {r.text()}")
    return r


def api_reader(ctx, what, items):
    r = api(ctx, what, items)
    return NetReader(r.out, r.out.index(b"@R@") + 3)


def oclint(ctx, inst, args, cwd=None, env=None, argv0=None, timeout=120):
    e = {"HOME": inst.path("home"), "PWD": None}
    e.update(env or {})
    return inst.s.run([argv0 or inst.argv0] + list(args), cwd or inst.path("w"), e, timeout)


def need_report(r, what="run"):
    if r.sig:
        raise Fail(f"{what} was killed by signal {r.sig}\n{r.text()}")
    if r.report is None:
        raise Fail(f"{what} gave no report\n{r.text()}")
    return r.report


def eq(a, b, what):
    if a != b:
        raise Fail(f"{what}: got {a!r}, expected {b!r}")


def diff_multiset(got, want, what):
    from collections import Counter
    g, w = Counter(got), Counter(want)
    if g != w:
        extra = list((g - w).elements())
        missing = list((w - g).elements())
        raise Fail(f"{what}: unexpected {extra!r}; missing {missing!r}")


ints = st.integers
sampled = st.sampled_from
