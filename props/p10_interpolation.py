"""P10 interval search and interpolation of series"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod._pymm as pm
from vh import gen
from vh.core import check, require, require_shape, require_close, require_same

LD = np.longdouble
NAN = float("nan")
KINDS = {"C0": pm.INTERP_C0, "C1": pm.INTERP_C1, "C1D1": pm.INTERP_C1D1}


@st.composite
def nodes_(draw, min_size, max_size, dups=True):
    mode = draw(st.sampled_from(["grid", "grid", "free", "close"]))
    if mode == "grid":
        vals = draw(st.lists(st.integers(-12, 12), min_size=min_size, max_size=max_size, unique=not dups))
        vals = [v * 0.5 for v in vals]
    elif mode == "free":
        vals = draw(st.lists(gen.finite(-1e5, 1e5), min_size=min_size, max_size=max_size, unique=not dups))
    else:
        start = draw(gen.finite(-1e4, 1e4))
        vals = [start]
        for _ in range(draw(st.integers(min_size, max_size)) - 1):
            vals.append(float(np.nextafter(vals[-1], np.inf)) if draw(st.booleans()) else vals[-1] + draw(gen.finite(1e-6, 100)))
        vals = vals[:max_size] if vals else vals
        if min_size == 0 and draw(st.integers(0, 5)) == 0:
            vals = []
    return sorted(vals)


@st.composite
def queries(draw, nodes, max_size=5):
    items = [gen.finite(-2e5, 2e5), st.integers(-14, 14).map(lambda v: v * 0.5)]
    if nodes:
        node = st.sampled_from(nodes)
        items += [node, node.map(lambda v: float(np.nextafter(v, np.inf))), node.map(lambda v: float(np.nextafter(v, -np.inf))),
                  gen.finite(nodes[0], nodes[-1])]
    items.append(st.sampled_from([float("inf"), -float("inf"), NAN]))
    return draw(st.lists(st.one_of(*items), min_size=1, max_size=max_size))


def scan_bisect(nodes, x, left):
    """definition: the last index whose node is below (left) / not above (right) the value"""
    idx = -1
    for i, v in enumerate(nodes):
        if (v < x) if left else (v <= x):
            idx = i
    return idx


@st.composite
def bisect_cases(draw):
    nodes = draw(st.one_of(nodes_(0, 8), nodes_(0, 40)))
    return {"nodes": nodes, "x": draw(queries(nodes)), "side": draw(st.sampled_from([None, "left", "right"]))}


@check(bisect_cases(), quick=14000, thorough=400000, rule="sorted nodes (0-40, duplicates allowed), queries at, next to, between and outside of them, infinite and NaN; non-trivial with more than 1 node")
def interval_search(case, ctx):
    nodes = case["nodes"]
    side = {None: (), "left": (pm.BISECT_SIDE_LEFT,), "right": (pm.BISECT_SIDE_RIGHT,)}[case["side"]]
    if len(nodes) > 1:
        ctx.nontrivial(case["side"] or "default")
    arr = np.array(nodes, dtype=float)
    got = pm.bisect(arr, np.array(case["x"]), *side)
    require(got.dtype.kind == "i" and got.shape == (len(case["x"]),), "wrong type or shape", got=got, case=case)
    exp = [scan_bisect(nodes, x, case["side"] != "right") for x in case["x"]]
    require(got.tolist() == exp, "wrong interval", got=got.tolist(), expected=exp, case=case)
    one = pm.bisect(nodes, case["x"][0], *side)
    require(np.shape(one) == () and int(one) == exp[0], "wrong interval of a single value", got=one, expected=exp[0], case=case)


@st.composite
def interp_cases(draw):
    kind = draw(st.sampled_from(["C0", "C1", "C1D1"]))
    nodes = draw(nodes_(1 if kind == "C0" else 2, 10, dups=False))
    nodes = nodes[:1] + [b for a, b in zip(nodes, nodes[1:]) if b - a > 1e-12]
    if len(nodes) < (1 if kind == "C0" else 2):
        nodes = [0.0, 1.0]
    if len(nodes) > 3 and draw(st.integers(0, 4)) == 0:
        # a jump: two inner nodes of the same time
        i = draw(st.integers(1, len(nodes) - 2))
        nodes.insert(i, nodes[i])
    return {"nodes": nodes, "kind": kind, "default": kind == "C1" and draw(st.booleans()),
            "x": draw(queries(nodes, 6)), "extrapolate": draw(st.sampled_from([None, False, True])),
            "dims": draw(st.sampled_from([[], [3], [2, 2], [0]])), "tdim": draw(st.sampled_from(["scalar", "1d", "2d"])),
            "seed": draw(gen.SEED), "integers": draw(st.booleans())}


def interpolate(nodes, c, x, kind, extrapolate):
    """value and tolerance; c: [..., N]"""
    n = len(nodes)
    if np.isnan(x):
        return None, None
    if kind == "C0":
        i = scan_bisect(nodes, x, False)
        if i < 0 and not extrapolate:
            return np.full(c.shape[:-1], NAN), 0.0
        return c[..., max(i, 0)], np.zeros(c.shape[:-1])
    if not extrapolate and not nodes[0] <= x <= nodes[-1]:
        return np.full(c.shape[:-1], NAN), 0.0
    i = min(max(scan_bisect(nodes, x, False), 0), n - 2)
    t0, t1 = LD(nodes[i]), LD(nodes[i + 1])
    c0, c1 = c[..., i].astype(LD), c[..., i + 1].astype(LD)
    if kind == "C1D1":
        return (c1 - c0) / (t1 - t0), 1e-15 * (abs(c0) + abs(c1)) / (t1 - t0)
    if np.isinf(x):
        return None, None
    # the precision of the difference of the node times included
    a = (LD(x) - t0) / (t1 - t0)
    rel = 2e-15 + 2.3e-16 * abs(float(LD(x) - t0)) / float(t1 - t0) * 4
    return c0 + a * (c1 - c0), 2e-15 * (abs(1 - a) * abs(c0) + abs(a) * abs(c1) + abs(c0)) + rel * 1e-15


@check(interp_cases(), quick=10000, thorough=300000, rule="series of 1-11 nodes, all kinds, with and without extrapolation, multi-dimensional series and times; non-trivial with a value inside of the range and more than one node")
def series_interpolation(case, ctx):
    nodes, kind = case["nodes"], case["kind"]
    gen_ = gen.rng(case["seed"])
    shape = tuple(case["dims"]) + (len(nodes),)
    coef = gen_.integers(-50, 50, size=shape).astype(float) if case["integers"] else gen_.normal(size=shape) * 1e3
    kw = {} if case["default"] else {"kind": KINDS[kind]}
    if case["extrapolate"] is not None:
        kw["extrapolate"] = case["extrapolate"]
    x = case["x"]
    times = np.array(x)
    if case["tdim"] == "scalar":
        x = x[:1]
        times = x[0]
    elif case["tdim"] == "2d":
        times = times.reshape((len(x), 1))
    if len(nodes) > 1 and any(nodes[0] <= v <= nodes[-1] for v in x):
        ctx.nontrivial(kind)
    backup = coef.copy()
    with np.errstate(all="ignore"):
        got = pm.interp(times, np.array(nodes), coef, **kw)
    require_same(coef, backup, "coefficients modified")
    require_shape(got, np.shape(times) + tuple(case["dims"]))
    got = got.reshape((len(x),) + tuple(case["dims"]))
    for i, v in enumerate(x):
        exp, tol = interpolate(nodes, coef, v, kind, bool(case["extrapolate"]))
        if exp is None:
            if np.isnan(v) and kind == "C1" and not case["extrapolate"]:
                require(np.all(np.isnan(got[i])), "interpolation at NaN is not NaN", case=case, got=got[i])
            continue
        require_close(got[i], np.asarray(exp, dtype=float), np.asarray(tol, dtype=float), "wrong interpolation", x=v, case=case)
        if kind != "C1D1" and v in nodes and nodes.count(v) == 1:
            require_same(got[i], coef[..., nodes.index(v)], "interpolation is not exact at a node", x=v, case=case)


SIZES = [100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100003]


@st.composite
def large_cases(draw):
    return {"size": draw(st.one_of(st.integers(20, 3000), st.integers(20, 3000), st.sampled_from(SIZES))), "queries": draw(st.one_of(st.integers(1, 3000), st.sampled_from(SIZES))),
            "spacing": draw(st.sampled_from(["grid", "random", "clusters", "growing"])), "origin": draw(st.sampled_from([0.0, -30000.0, 8035.0])),
            "order": draw(st.sampled_from(["random", "sorted", "reversed", "dense", "walk"])),
            "side": draw(st.sampled_from([None, "left", "right"])), "dups": draw(st.booleans()),
            "kind": draw(st.sampled_from(["C0", "C1", "C1", "C1D1"])), "extrapolate": draw(st.booleans()), "width": draw(st.sampled_from([None, 1, 3])),
            "matrix": draw(st.booleans()), "seed": draw(gen.SEED)}


def long_nodes(r, size, spacing, origin):
    if spacing == "grid":
        steps = np.ones(size - 1)
    elif spacing == "random":
        steps = r.uniform(0.01, 2.0, size=size - 1)
    elif spacing == "clusters":
        steps = np.where(r.random(size - 1) < 0.02, r.uniform(100, 1000, size=size - 1), r.uniform(1e-5, 1e-2, size=size - 1))
    else:
        steps = np.cumsum(r.uniform(1e-4, 1e-2, size=size - 1))
    return origin + np.concatenate([[0.0], np.cumsum(steps)])


def many_queries(r, nodes, count, order):
    span = nodes[-1] - nodes[0]
    x = np.where(r.random(count) < 0.5, nodes[r.integers(0, len(nodes), size=count)], r.uniform(nodes[0] - 0.05 * span, nodes[-1] + 0.05 * span, size=count))
    kind = r.random(count)
    x = np.where(kind < 0.15, np.nextafter(x, np.inf), np.where(kind < 0.3, np.nextafter(x, -np.inf), x))
    # between random neighbours
    k = r.integers(0, len(nodes) - 1, size=count)
    x = np.where(kind > 0.7, nodes[k] + r.random(count) * (nodes[k + 1] - nodes[k]), x)
    if order == "sorted":
        x = np.sort(x)
    elif order == "reversed":
        x = np.sort(x)[::-1]
    elif order == "dense":
        x = np.full(count, x[0]) + np.cumsum(r.uniform(-1e-3, 1e-3, size=count))
    elif order == "walk":
        at = np.clip(np.cumsum(r.integers(-1, 2, size=count)) + int(r.integers(0, len(nodes))), 0, len(nodes) - 1)
        x = np.where(r.random(count) < 0.5, nodes[at], nodes[at] + 1e-6 * r.uniform(-1, 1, size=count))
    return x


@check(large_cases(), quick=700, thorough=40000,
       rule="series of 20-100003 nodes and 1-100003 values (sorted, reversed, close to each other, walking over the nodes) against numpy's search and a vectorised interpolation; non-trivial with more than 256 nodes")
def large_series(case, ctx):
    r = gen.rng(case["seed"])
    nodes = long_nodes(r, case["size"], case["spacing"], case["origin"])
    x = many_queries(r, nodes, case["queries"], case["order"])
    if case["matrix"] and len(x) % 2 == 0:
        x = x.reshape((2, -1))
    if case["size"] > 256:
        ctx.nontrivial(case["kind"])
    # search, repeated nodes included
    keys = np.sort(np.concatenate([nodes, nodes[r.integers(0, len(nodes), size=len(nodes) // 3)]])) if case["dups"] else nodes
    side = {None: (), "left": (pm.BISECT_SIDE_LEFT,), "right": (pm.BISECT_SIDE_RIGHT,)}[case["side"]]
    got = pm.bisect(keys, x, *side)
    require(got.shape == x.shape, "wrong shape of the intervals", got=got.shape, case=case)
    exp = np.searchsorted(keys, x, "right" if case["side"] == "right" else "left") - 1
    bad = np.flatnonzero(got.ravel() != exp.ravel())
    require(bad.size == 0, "wrong interval", count=int(bad.size), x=x.ravel()[bad[:3]], got=got.ravel()[bad[:3]], expected=exp.ravel()[bad[:3]], case=case)
    # interpolation
    kind, width = case["kind"], case["width"]
    coef = r.normal(size=(() if width is None else (width,)) + (len(nodes),)) * 1e3
    got = pm.interp(x, nodes, coef, kind=KINDS[kind], extrapolate=case["extrapolate"])
    require_shape(got, x.shape + coef.shape[:-1])
    at = np.searchsorted(nodes, x, "right") - 1
    out = (x < nodes[0]) if kind == "C0" else (x < nodes[0]) | (x > nodes[-1])
    i = np.clip(at, 0, len(nodes) - (1 if kind == "C0" else 2))
    c0 = np.moveaxis(coef[..., i], 0, -1) if width is not None else coef[i]
    if kind == "C0":
        exp, tol = c0, np.zeros(c0.shape)
    else:
        c1 = np.moveaxis(coef[..., i + 1], 0, -1) if width is not None else coef[i + 1]
        t0, dt, dx = nodes[i], nodes[i + 1] - nodes[i], x - nodes[i]
        if width is not None:
            dt, dx = dt[..., None], dx[..., None]
        if kind == "C1D1":
            exp, tol = (c1 - c0) / dt, 4e-15 * (abs(c0) + abs(c1)) / dt
        else:
            a = dx / dt
            exp = (LD(1) - a) * c0 + LD(1) * a * c1
            tol = 8e-15 * (abs(1 - a) + abs(a) + 1) * (abs(c0) + abs(c1))
    exp, tol = np.asarray(exp, dtype=float), np.asarray(tol, dtype=float)
    if not case["extrapolate"]:
        exp = np.where(out if width is None else out[..., None], NAN, exp)
    require_close(got, exp, tol, "wrong interpolation of a long series", case=case)
