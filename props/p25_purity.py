"""P25 results are functions of the arguments over any history of calls"""
import os
import tempfile
from hypothesis import strategies as st
from vh.core import check, require, fail
from vh.pristine import Pristine
from vh.world import LOCAL, TIMES, World, WORLDS, REQUESTS, alone, run, show, twins


@st.composite
def histories_cases(draw):
    pool = draw(st.one_of(st.lists(REQUESTS, min_size=2, max_size=7), st.lists(REQUESTS, min_size=2, max_size=7), twins()))
    return {"world": draw(WORLDS), "pool": pool, "order": draw(st.lists(st.integers(0, len(pool) - 1), min_size=2, max_size=14))}


_SERVER = []


@check(histories_cases(), quick=2500, thorough=60000,
       rule="sequences of 2-14 calls, repeated and interleaved, on models sharing coefficients, shipped models, files rewritten at the same path, low level functions and rejected calls, returned arrays overwritten; compared bit by bit with the call made alone in a fresh process; non-trivial when a call is repeated after another one")
def histories(case, ctx):
    if not _SERVER:
        _SERVER.append(Pristine(alone))
    spec, pool, order = case["world"], case["pool"], case["order"]
    if any(i in order[:k - 1] and order[k - 1] != i for k, i in enumerate(order) if k > 1):
        ctx.nontrivial()
    with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as folder:
        world = World(spec, folder)
        seen = {}
        for step, i in enumerate(order):
            req = pool[i]
            result, intact, same = run(world, req)
            ctx.label(req["op"] + (" raised" if result[:1] == ["exception"] else ""))
            require(intact, "the call changed its arguments", request=req, case=case)
            require(same, "the call changed a state of the process or a constant", request=req, case=case)
            if i in seen:
                require(result == seen[i], "the repeated call gives another result", step=step, request=req, case=case)
            seen[i] = result
            expected = _SERVER[0]((spec, req))
            if expected[:1] == ("died",):
                fail("the process died", request=req, status=expected[1], case=case)
            require(result == expected, "the result differs from the call made alone", step=step, request=req, got=show(result), expected=show(expected), case=case)


@st.composite
def sweep_cases(draw):
    first = draw(REQUESTS.filter(lambda r: r["op"] in ("eval", "coeff")))
    if first["op"] == "eval":
        first["model"] = draw(st.sampled_from(LOCAL))
    degrees = draw(st.lists(st.sampled_from([None, -1, 0, 0, 1, 2, 3, 4]), min_size=2, max_size=3, unique=True))
    times = draw(st.lists(TIMES, min_size=1, max_size=2, unique=True))
    grid = [(lo, hi, t) for lo in degrees for hi in degrees for t in times]
    picks = draw(st.lists(st.sampled_from(grid), min_size=2, max_size=16))
    reqs = []
    for lo, hi, t in picks:
        opts = {k: v for k, v in first["options"].items() if k not in ("min_degree", "max_degree")}
        opts.update({k: v for k, v in (("min_degree", lo), ("max_degree", hi)) if v is not None})
        reqs.append(dict(first, options=opts, time=t, shape=draw(st.sampled_from([first["shape"], [], [2]]))))
    return {"world": draw(WORLDS), "requests": reqs}


@check(sweep_cases(), quick=4000, thorough=60000,
       rule="2-16 evaluations of one model or coefficient set with the degrees and times of a small grid in any order and repeated; compared bit by bit with newly created objects; non-trivial when the requests differ")
def option_sweeps(case, ctx):
    reqs = case["requests"]
    if any(r != reqs[0] for r in reqs[1:]):
        ctx.nontrivial(reqs[0].get("model", reqs[0]["op"]))
    known = {}
    with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as folder:
        world = World(case["world"], folder)
        for step, req in enumerate(reqs):
            result = run(world, req)[0]
            key = repr(req)
            if key not in known:
                known[key] = run(World(case["world"], folder), req)[0]
            require(result == known[key], "the result differs from the one of a new object", step=step, request=req, got=show(result), expected=show(known[key]), case=case)
