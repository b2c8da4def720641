"""P29 calls made from several threads"""
import copy
import os
import sys
import tempfile
import threading
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen
from vh.core import HarnessError, check, require, fail
from vh.pristine import Pristine
from vh.threads import Schedule, Stuck
from vh.world import World, WORLDS, REQUESTS, alone, frozen, perform, scribble, show, twins

_SERVER = []
PACKAGE = os.path.dirname(os.path.abspath(em.__file__))


def view(world, folder):
    """the same models with another folder of files"""
    out = copy.copy(world)
    out.folder = folder
    os.makedirs(folder)
    return out


def call(world, req):
    func, args, kw = perform(world, req)
    before = frozen([args, kw])
    try:
        out = func(*args, **kw)
    except Stuck:
        raise
    except Exception as error:  # pylint: disable=broad-except
        return ["exception", type(error).__name__], frozen([args, kw]) == before
    result, intact = frozen(out), frozen([args, kw]) == before
    scribble(out)
    return result, intact


def expected_of(case):
    if not _SERVER:
        _SERVER.append(Pristine(alone))
    out = []
    for req in case["pool"]:
        value = _SERVER[0]((case["world"], req))
        if value[:1] == ("died",):
            fail("the process died", request=req, status=value[1], case=case)
        out.append(value)
    return out


def work(case, folder):
    """the results of the threads, and functions filling them"""
    world = World(case["world"], folder)
    worlds = [view(world, os.path.join(folder, "t%d" % i)) for i in range(len(case["threads"]))]
    results = [[] for _ in worlds]

    def body(k):
        for _ in range(case.get("repeat", 1)):
            for i in case["threads"][k]:
                results[k].append((i, *call(worlds[k], case["pool"][i])))
    return results, [lambda k=k: body(k) for k in range(len(worlds))]


def compare(case, results, expected):
    for k, items in enumerate(results):
        require(len(items) == len(case["threads"][k]) * case.get("repeat", 1), "a thread has not finished its calls", thread=k, case=case)
        for i, result, intact in items:
            req = case["pool"][i]
            require(intact, "the call changed its arguments", thread=k, request=req, case=case)
            require(result == expected[i], "the result differs from the call made alone", thread=k, request=req, got=show(result), expected=show(expected[i]), case=case)


def requests():
    """calls on the same objects are more likely"""
    return st.one_of(REQUESTS, REQUESTS.filter(lambda r: r["op"] in ("eval", "coeff", "trace", "recombine", "load")))


@st.composite
def schedule_cases(draw):
    pool = draw(st.one_of(st.lists(requests(), min_size=1, max_size=4), twins(), twins()))
    order = st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=3)
    return {"world": draw(WORLDS), "pool": pool, "threads": draw(st.lists(order, min_size=2, max_size=3)),
            "runs": draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 80)), min_size=1, max_size=8)), "fine": draw(st.sampled_from([False, False, True]))}


@check(schedule_cases(), quick=3500, thorough=80000,
       rule="2-3 threads of 1-3 calls on shared models, files and low level functions; the switches between the lines or instructions of the package are given by the schedule; compared bit by bit with the calls made alone in fresh processes; non-trivial when a thread is stopped inside of a call and another one runs")
def schedules(case, ctx):
    expected = expected_of(case)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as folder:
        results, bodies = work(case, folder)
        schedule = Schedule(PACKAGE, case["runs"], case["fine"])
        try:
            switches = schedule.run(bodies)
        except Stuck:
            raise HarnessError("the threads wait for each other") from None
    if switches:
        ctx.nontrivial()
        ctx.label("instructions" if case["fine"] else "lines")
    compare(case, results, expected)


@st.composite
def parallel_cases(draw):
    pool = draw(st.one_of(st.lists(requests(), min_size=1, max_size=3), twins(3), twins(3)))
    size = draw(st.sampled_from([300, 2000]))
    for req in pool:
        if req["op"] not in ("bad", "trace", "info", "recombine", "load") and req.get("shape"):
            req["shape"] = [size // 10 if req["op"] in ("qdvec",) else size]
    order = st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=3)
    return {"world": draw(WORLDS), "pool": pool, "threads": draw(st.lists(order, min_size=2, max_size=4)), "repeat": draw(st.integers(1, 4))}


@check(parallel_cases(), quick=400, thorough=10000, shards=4,
       rule="2-4 threads running freely with the shortest switch interval, arrays of up to 2000 points; non-trivial when some call evaluates an array")
def parallel(case, ctx):
    expected = expected_of(case)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH")) as folder:
        results, bodies = work(case, folder)
        errors = []

        def guarded(func, gate):
            try:
                gate.wait()
                func()
            except BaseException as error:  # pylint: disable=broad-except
                errors.append(error)
        gate = threading.Barrier(len(bodies))
        threads = [threading.Thread(target=guarded, args=(f, gate), daemon=True) for f in bodies]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(300)
        finally:
            sys.setswitchinterval(interval)
        if any(t.is_alive() for t in threads):
            raise HarnessError("the threads have not finished")
    if errors:
        raise errors[0]
    if any(sum(r.get("shape", [])) >= 200 for r in case["pool"]):
        ctx.nontrivial()
    compare(case, results, expected)
