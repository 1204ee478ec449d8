"""P30: memoisation: every history of calls returns what the function returns for those very arguments."""
import gc
import os
import sys
import weakref

import torch
from torch.utils._python_dispatch import _disable_current_modes

from vlib.harness import REPO

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
from utils import memoize as mz  # noqa: E402

BOUNDS = "every history of 3 (thorough: 4) calls over tensors that are fresh, still held or already dropped by the caller, passed by position, by keyword, in a tuple or in a dict, with every way an allocator can reuse the identity of a dropped tensor; two functions and two caches"
OUTSIDE = "tensors modified in place between calls (the cache identifies tensors by object); unhashable arguments"
ASSUMPTIONS = ["identities of tensors are chosen by the solver, never equal for two live tensors (replay: real tensors, allocated until the identity recurs)"]


class Tok(torch.Tensor):
    """a tensor whose identity hash is chosen by the harness"""

    def __hash__(self):
        return self.ident


class Heap:
    def __init__(self, h):
        self.h, self.n, self.all, self.held = h, 0, [], []

    def new(self):
        """a tensor nobody but the caller holds; its identity may be that of any dead tensor"""
        gc.collect()
        live = {i for r, i in self.all if r() is not None}
        dead = []
        for r, i in self.all:
            if r() is None and i not in live and i not in dead:
                dead.append(i)
        self.n += 1
        pick = self.h.pyint("alloc%d" % self.n, 0, len(dead)) if dead else 0
        if self.h.symbolic:
            with _disable_current_modes():
                t = torch.zeros(()).as_subclass(Tok)
            t.ident = dead[pick - 1] if pick else 1000 + self.n
        else:
            t = torch.zeros(())
            if pick:  # real allocator: try to get the identity of a dead tensor
                spare = []
                for _ in range(2000):
                    if hash(t) == dead[pick - 1]:
                        break
                    spare.append(t)
                    t = torch.zeros(())
                del spare
        t.tag = self.n
        self.all.append((weakref.ref(t), hash(t)))
        return t


def tags(x):
    if isinstance(x, torch.Tensor):
        return ("t", x.tag)
    if isinstance(x, (list, tuple)):
        return tuple(tags(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, tags(v)) for k, v in x.items())
    return x


def histories(n, forms):
    def body(h):
        heap, held = Heap(h), []
        calls = []

        @mz.memoize
        def f(*a, **k):
            calls.append("f")
            return ("f", tags(a), tags(tuple(sorted(k.items()))))

        cache = mz.create_cache()
        g = mz.bind(f, cache)
        seen = set()
        for i in range(n):
            src = h.pyint("src%d" % i, 0, len(held))  # 0: a new tensor, else one still held
            t = heap.new() if src == 0 else held[src - 1]
            form = forms[h.pyint("form%d" % i, 0, len(forms) - 1)] if len(forms) > 1 else forms[0]
            before = len(calls)
            if form == "pos":
                r, want = g(t, 3), ("f", (("t", t.tag), 3), ())
            elif form == "kw":
                r, want = g(3, x=t), ("f", (3,), (("x", ("t", t.tag)),))
            elif form == "tuple":
                r, want = g((t, 3)), ("f", ((("t", t.tag), 3),), ())
            else:
                r, want = g({"k": t}), ("f", (((("k", ("t", t.tag))),),), ())
            h.claim("a memoised call returns what the function returns for its arguments", r == want)
            h.claim("the function runs once per distinct argument list", (len(calls) == before) == (want in seen))
            seen.add(want)
            if src == 0 and h.pybool("hold%d" % i):
                held.append(t)
            del t
        h.claim("hits are counted", f.get_total_cache_hits(cache) == n - len(calls))
    return body


def separate(h):
    """functions and caches do not share results; an unbound call never caches"""
    calls = []

    @mz.memoize
    def f(x):
        calls.append("f")
        return ("f", x)

    @mz.memoize
    def g(x):
        calls.append("g")
        return ("g", x)

    c1, c2 = mz.create_cache(), mz.create_cache()
    ran = set()
    for i in range(3):
        fn = h.pyint("fn%d" % i, 0, 1)
        ca = h.pyint("cache%d" % i, 0, 2)
        arg = h.pyint("arg%d" % i, 0, 1)
        F, name = ((f, "f"), (g, "g"))[fn]
        before = len(calls)
        r = (F(arg) if ca == 2 else mz.bind(F, (c1, c2)[ca])(arg))
        h.claim("result of the called function", r == (name, arg))
        h.claim("cached only for the same function, cache and argument", (len(calls) == before) == (ca != 2 and (name, ca, arg) in ran))
        ran.add((name, ca, arg))


def nested_cache(h):
    """cache objects among the arguments are not part of the key; keyword order is not either"""
    calls = []

    @mz.memoize
    def f(x, y=0, z=0, cache=None):
        calls.append(1)
        return (x, y, z)

    c = mz.create_cache()
    g = mz.bind(f, c)
    a, b = h.pyint("a", 0, 1), h.pyint("b", 0, 1)
    r1 = g(1, y=a, z=b, cache=c)
    r2 = g(1, z=b, y=a, cache=mz.create_cache())
    h.claim("same results", r1 == (1, a, b) and r2 == (1, a, b))
    h.claim("one evaluation", len(calls) == 1)
    r3 = g(1, y=b, z=a)
    h.claim("other keyword values are other arguments", r3 == (1, b, a) and len(calls) == (1 if a == b else 2))
    h.claim("no cache means no caching", mz.bind(f, None)(1, y=a) == (1, a, 0) and mz.bind(f, None)(1, y=a) == (1, a, 0) and len(calls) == (3 if a == b else 4))


def instances(tier):
    n = 3 if tier == "quick" else 4
    out = [{"name": "history/positional", "group": "history", "body": histories(n, ["pos"]), "validate": 2, "max_paths": 20000, "budget": 200},
           {"name": "history/mixed", "group": "history", "body": histories(2 if tier == "quick" else 3, ["pos", "kw", "tuple", "dict"]), "validate": 2, "max_paths": 20000, "budget": 200},
           {"name": "history/keyword", "group": "history", "body": histories(n, ["kw"]), "validate": 2, "max_paths": 20000, "budget": 200},
           {"name": "separate", "body": separate, "validate": 2, "max_paths": 30000, "budget": 300},
           {"name": "nested", "body": nested_cache, "validate": 2}]
    return out
