"""P30: list, chunking, dictionary and conditional-call helpers against their definition on all small inputs."""
import contextlib
import copy
import io
import itertools
import math
import sys

import mc
import arc_utilities.algorithms as alg
from arc_utilities.conditional_try import conditional_try
from arc_utilities.dict_tools import dict_round


class Source:
    """An iterator that records how much was taken, over values compared by identity."""

    def __init__(self, items):
        self.items, self.taken = list(items), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken >= len(self.items):
            self.taken += 1
            raise StopIteration
        self.taken += 1
        return self.items[self.taken - 1]


class Box:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def items(run, label, lo=0, hi=4):
    n = lo + run.choose(hi - lo + 1, label)
    return [None if run.flip("None item") else Box(i) for i in range(n)]


def expect(run, f, exc):
    """f() must raise exc."""
    try:
        r = f()
    except exc:
        return
    run.fail(f"expected {exc.__name__}, got {r!r}")


@mc.scenario("repeat_zip", "repeating the last element, zipping lists of unequal length")
def repeat_zip(run):
    if run.flip("zip"):
        lists = [items(run, "length", 0, 3 if i == 0 else run.bound(2, 3)) for i in range(1 + run.choose(3, "lists"))]
        kinds = run.choose(2, "list / tuple")
        args = [tuple(x) for x in lists] if kinds else [list(x) for x in lists]
        run.step()
        if any(not x for x in lists) and any(lists):
            # there is nothing to repeat in an empty list
            expect(run, lambda: list(alg.zip_repeat_shorter(*args)), RuntimeError)
            return
        got = list(itertools.islice(alg.zip_repeat_shorter(*args), 20))
        n = max(len(x) for x in lists)
        want = [tuple(x[min(i, len(x) - 1)] for x in lists) for i in range(n)]
        run.check(len(got) == len(want) and all(isinstance(g, tuple) and same(g, w) for g, w in zip(got, want)),
                  f"zip_repeat_shorter({lists}) gave {got}, expected {want}")
        run.check([list(a) for a in args] == lists, "the lists given were changed")
        run.state("zip", [len(x) for x in lists])
    else:
        x = items(run, "length", 0, 4)
        if not x:
            expect(run, lambda: next(alg.repeat_last([])), RuntimeError)
            return
        k = run.choose(10, "taken")
        g = alg.repeat_last(list(x))
        got = [next(g) for _ in range(k)]
        run.step(k)
        run.check(same(got, [x[min(i, len(x) - 1)] for i in range(k)]), f"repeat_last({x}) gave {got}")
        run.state("repeat", len(x), k)


@mc.scenario("chunks", "splitting into chunks from the front and from the back")
def chunks(run):
    n = run.choose(run.bound(10, 15), "length")
    size = 1 + run.choose(run.bound(6, 9), "chunk size")
    x = [None if run.choose(2, "None items") else Box(i) for i in range(min(n, 3))] + [Box(i) for i in range(3, n)]
    run.step()
    if run.flip("reversed"):
        arg = run.pick([x, tuple(x), "abcdefghijklmno"[:n], range(n)], "sequence type")
        got = alg.reversed_chunked(arg, size)
        rem = n % size
        want = [arg[i:i + size] for i in range(rem, n, size)]
        run.check(isinstance(got, list) and len(got) == len(want)
                  and all(same(g, w) if not isinstance(g, range) else g == w for g, w in zip(got, want)),
                  f"reversed_chunked({arg}, {size}) gave {got}, expected {want}")
        run.check(len(x) == n, "the sequence given was changed")
        run.state("rev", n, size)
        return
    want = [x[i:i + size] for i in range(0, n - n % size, size)]
    kind = run.choose(3, "list / iterator / part of an iterator")
    if kind == 0:
        got = list(alg.chunked_drop_last(list(x), size))
    elif kind == 1:
        got = list(alg.chunked_drop_last(Source(x), size))
    else:
        k = run.choose(len(want) + 1, "chunks taken")
        src = Source(x)
        g = alg.chunked_drop_last(src, size)
        got, want = [next(g) for _ in range(k)], want[:k]
        run.check(src.taken == k * size, f"{k} chunks of {size} took {src.taken} elements of the source")
    run.check(all(isinstance(g, list) for g in got) and len(got) == len(want)
              and all(same(g, w) for g, w in zip(got, want)), f"chunked_drop_last({x}, {size}) gave {got}")
    run.state("chunk", n, size, kind)


@mc.scenario("unique", "lists of hashable elements with and without repetition")
def unique(run):
    n = run.choose(run.bound(5, 6), "length")
    vals = [0, 1, "a", None, (1, 2), 1.5, False]
    x = [run.pick(vals, "element") for _ in range(n)]
    want = all(x[i] != x[j] for i in range(n) for j in range(i))
    run.step()
    got = alg.is_list_unique(run.pick([x, tuple(x)], "type"))
    run.check(got is want, f"is_list_unique({x}) is {got}")
    run.state(x)


def gen_dict(run, depth, label, keys=("a", "b")):
    d = {}
    for k in keys:
        opts = 4 if depth else 3
        c = run.choose(opts, f"{label}.{k}: absent / number / None / dict")
        if c == 1:
            d[k] = len(label) * 10 + ord(k)
        elif c == 2:
            d[k] = None
        elif c == 3:
            d[k] = gen_dict(run, depth - 1, label + k, keys)
    return d


def merged(a, b):
    r = dict(a)
    for k, v in b.items():
        if isinstance(v, dict):
            r[k] = merged(a[k] if isinstance(a.get(k), dict) else {}, v)
        else:
            r[k] = v
    return r


def key_order(d):
    return [(k, key_order(v) if isinstance(v, dict) else v) for k, v in d.items()]


@mc.scenario("nested_update", "all pairs of nested dictionaries of two keys and two levels", depth=3)
def nested_update(run):
    base = gen_dict(run, 1, "base")
    upd = gen_dict(run, run.bound(1, 2), "update") if not run.flip("nothing to update") else None
    base0, upd0 = copy.deepcopy(base), copy.deepcopy(upd)
    run.note(f"  {base} updated by {upd}")
    want = merged(base, upd or {})
    run.step()
    got = alg.nested_dict_update(base, upd)
    run.check(got is base, "the dictionary given is not the one updated")
    run.check(got == want, f"{base0} updated by {upd0} became {got}, expected {want}")
    run.check(key_order(got) == key_order(want), f"order of keys changed: {key_order(got)}")
    run.check(upd == upd0, f"the update {upd0} itself was changed to {upd}")
    run.state(base0, upd0)


@mc.scenario("nested_alias", "later changes of the result do not reach into the update that was merged", depth=1)
def nested_alias(run):
    base, upd = gen_dict(run, 1, "base"), gen_dict(run, 1, "update")
    upd0 = copy.deepcopy(upd)
    alg.nested_dict_update(base, upd)
    again = {"a": {"b": "second"}, "b": {"a": "second"}}
    alg.nested_dict_update(base, again)
    run.step(2)
    run.check(upd == upd0, f"a later update of the result changed the dictionary merged before: {upd0} became {upd}")
    run.check(again == {"a": {"b": "second"}, "b": {"a": "second"}}, "the update was changed")
    run.state(base)


@mc.scenario("rounding", "rounding dictionary values")
def rounding(run):
    vals = [0.0, 1.005, -2.675, 1e9 / 3, -0.5, 7, 0.125]
    d = {k: run.pick(vals, "value") for k in ["x", "y", 3][:run.choose(4, "keys")]}
    places = run.pick([None, 0, 1, 2, 3, -1], "places")
    d0 = dict(d)
    run.step()
    got = dict_round(d) if places is None else dict_round(d, places) if run.flip("positional") else \
        dict_round(d, places=places)
    want = {k: round(v, 2 if places is None else places) for k, v in d.items()}
    run.check(got == want and list(got) == list(want), f"dict_round({d0}, {places}) is {got}")
    run.check(d == d0 and got is not d, "the dictionary given was changed")
    run.state(d0, places)


class Odd(Exception):
    pass


@mc.scenario("conditional", "calls with and without catching, returning or raising anything", depth=2)
def conditional(run):
    catch = run.pick([True, False, 1, 0], "catch")
    outcome = run.choose(8, "outcome")
    kw = [dict(), dict(a=1), dict(a=1, b=None)][run.choose(3, "arguments")]
    fallback = run.pick(["absent", None, 5, "x"], "value on exception")
    calls, value = [], object()
    excs = [None, ValueError("v"), Odd("o"), TypeError("t"), StopIteration(3), KeyboardInterrupt(), SystemExit(2),
            None]
    e = excs[outcome]

    def f(**k):
        calls.append(k)
        if e is not None:
            raise e
        return None if outcome == 7 else value
    args = dict(kw)
    if fallback != "absent":
        args["value_on_exception"] = fallback
    result, raised = None, None
    out = io.StringIO()
    run.step()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            result = conditional_try(catch, f, **args)
        except BaseException as x:
            raised = x
    run.check(calls == [kw], f"the function was called with {calls} instead of once with {kw}")
    if e is None:
        run.check(raised is None and result is (None if outcome == 7 else value), f"returned {result}, raised {raised}")
    elif catch and isinstance(e, Exception):
        run.check(raised is None, f"{e!r} was not caught")
        run.check(result == (None if fallback == "absent" else fallback), f"fallback is {result!r}, not {fallback!r}")
        run.check(type(e).__name__ in out.getvalue(), "the exception caught is not reported")
    else:
        run.check(raised is e, f"{e!r} came out as {raised!r}")
    run.state(catch, outcome, fallback)


if __name__ == "__main__":
    sys.exit(mc.main())
