"""P17 combined and composed coefficient sets"""
import itertools
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients, ComposedSHCoefficients
from vh import gen, ref, modelgen as mg
from vh.shgen import KINDS, ncoef, expected_at
from vh.core import check, require, require_shape, require_close, require_same, fail

# bounds of the validities are starts of the years
FIRST, LAST = 2001, 2013
GRID = [float(mg.year_start(y)) for y in range(FIRST, LAST + 1)]
CLASSES = {"comb": CombinedSHCoefficients, "comp": ComposedSHCoefficients}


@st.composite
def leaf(draw, start, end):
    """a set valid between the years (None is unbounded)"""
    spec = draw(mg.leaf_spec(max_degree=5, span=(GRID[0] - 500, GRID[-1] + 500), validity=False))
    spec.pop("simple", None)
    spec.pop("conv", None)
    bounds = [start, end]
    if spec["kind"] != "const" and start is not None and end is not None and draw(st.integers(0, 2)) == 0:
        # time nodes cover the validity exactly
        inner = [v for v in range(start + 1, end) if draw(st.booleans())]
        nodes = [float(v) for v in [start, *inner, end]]
        spec["nodes"] = nodes if spec["kind"] == "dy" else [float(mg.year_start(int(v))) for v in nodes]
        spec.pop("shuffle", None)
        return spec
    spec["validity"] = [None if v is None else float(v) if spec["kind"] == "dy" else float(mg.year_start(v)) for v in bounds]
    if spec["kind"] != "const":
        # no limit of the interpolated sets is the one of the nodes
        for i, v in enumerate(bounds):
            if v is None:
                spec["validity"][i] = -40000.0 if i == 0 else 40000.0
                if spec["kind"] == "dy":
                    spec["validity"][i] = 1900.0 if i == 0 else 2100.0
    return spec


@st.composite
def tree(draw, start, end, depth):
    """a set valid (at least) between the years"""
    kind = draw(st.sampled_from(["leaf", "comb", "comp", "comp"] if depth > 0 else ["leaf"]))
    if kind == "leaf":
        return draw(leaf(start, end))
    lo, hi = (FIRST if start is None else start), (LAST if end is None else end)
    items = []
    if kind == "comb":
        for _ in range(draw(st.integers(1, 3))):
            a = draw(st.sampled_from([start, start, None, max(lo - 2, FIRST - 3)]))
            b = draw(st.sampled_from([end, end, None, min(hi + 2, LAST + 3)]))
            if start is None:
                a = None
            if end is None:
                b = None
            items.append(draw(tree(a, b, depth - 1)))
        return {"op": "comb", "items": items}
    cuts = sorted(draw(st.lists(st.integers(lo, hi), max_size=2, unique=True)))
    cuts = [c for c in cuts if lo < c < hi]
    edges = [start, *cuts, end]
    for a, b in zip(edges[:-1], edges[1:]):
        # pieces touch or overlap
        a2, b2 = a, b
        if a is not None and draw(st.booleans()):
            a2 = a - draw(st.integers(0, 2))
        if b is not None and draw(st.booleans()):
            b2 = b + draw(st.integers(0, 2))
        items.append(draw(tree(a2, b2, depth - 1)))
    if draw(st.booleans()) and hi - lo >= 1:
        # nested in the others
        a = draw(st.integers(lo, hi - 1))
        items.append(draw(tree(a, draw(st.integers(a + 1, hi)), depth - 1)))
    return {"op": "comp", "items": draw(st.permutations(items))}


@st.composite
def set_cases(draw, depth=3):
    start, end = sorted(draw(st.lists(st.integers(FIRST, LAST), min_size=2, max_size=2, unique=True)))
    inside = gen.finite(float(mg.year_start(start)), float(mg.year_start(end)))
    case = {"tree": draw(tree(start, end, depth)), "internal": draw(st.sampled_from([True, True, False])),
            "times": draw(st.lists(st.one_of(st.sampled_from(GRID), gen.finite(GRID[0] - 400, GRID[-1] + 400), inside, inside, inside,
                                             st.builds(lambda t, up: float(np.nextafter(t, 1e9 if up else -1e9)), st.sampled_from(GRID), st.booleans()),
                                             st.sampled_from([-2e4, 2e4])), min_size=4, max_size=8)),
            "min_degree": draw(st.sampled_from([None, None, None, 0, 1, 2, 4])), "max_degree": draw(st.sampled_from([None, None, None, 0, 1, 2, 4])),
            "style": draw(st.sampled_from(["plain", "list", "strided", "reversed"]))}
    return case


class Node:
    """reference of a set or of sets"""

    def __init__(self, spec, internal):
        if "op" not in spec:
            self.op = "leaf"
            self.leaf = mg.Leaf(spec, internal)
            self.leaf.check_validity()
            self.obj = self.leaf.obj
            self.start, self.end = self.leaf.validity
            self.degree, self.min_degree = self.leaf.degree, self.leaf.min_degree
            self.leaves, self.edges = [self.leaf], [self.start, self.end]
            return
        self.op = spec["op"]
        self.items = [Node(s, internal) for s in spec["items"]]
        self.leaves = [v for i in self.items for v in i.leaves]
        self.edges = [v for i in self.items for v in i.edges]
        starts, ends = [i.start for i in self.items], [i.end for i in self.items]
        if self.op == "comb":
            self.start, self.end = max(starts), min(ends)
        else:
            self.start, self.end = min(starts), max(ends)
        self.degree = max(i.degree for i in self.items)
        self.min_degree = min(i.min_degree for i in self.items)
        self.obj = CLASSES[self.op](*[i.obj for i in self.items])

    def is_valid(self, t):
        return self.start <= t <= self.end

    def choices(self, t):
        """lists of the summed sets, the first valid ones before the others"""
        if self.op == "leaf":
            return [[self.leaf]]
        if self.op == "comb":
            return [sum(c, []) for c in itertools.product(*(i.choices(t) for i in self.items))]
        return [c for i in self.items if i.is_valid(t) for c in i.choices(t)]

    def first(self, t):
        if self.op == "leaf":
            return [self.leaf]
        if self.op == "comb":
            return sum((i.first(t) for i in self.items), [])
        return next(i for i in self.items if i.is_valid(t)).first(t)


def options_of(case):
    return {k: case[k] for k in ("min_degree", "max_degree") if case[k] is not None}


def sums(leaves, t, case, degree):
    """candidates of the summed coefficients and their magnitudes"""
    lo, hi = (-1 if case[k] is None else case[k] for k in ("min_degree", "max_degree"))
    for parts in itertools.islice(itertools.product(*(v.at(t, lo, hi) for v in leaves)), 64):
        yield mg.total(parts, degree)


def require_one_of(got, candidates, msg, **values):
    candidates = list(candidates)
    for exp, tol in candidates[:-1]:
        if np.all(np.abs(got - exp) <= tol):
            return
    exp, tol = candidates[-1]
    require_close(got, exp, tol, msg, **values)


def overlap(node, t):
    if node.op == "leaf":
        return False
    if node.op == "comp" and sum(i.is_valid(t) for i in node.items) > 1:
        return True
    return any(overlap(i, t) for i in node.items if i.is_valid(t))


@check(set_cases(), quick=4000, thorough=200000,
       rule="nested combined and composed sets (up to 3 levels) of constant and time-dependent sets with overlapping, touching, nested and unbounded validities; coefficients at scalar and array times; non-trivial at times where more than one composed set is valid")
def coefficients(case, ctx):
    node = Node(case["tree"], case["internal"])
    obj = node.obj
    require_same([float(v) for v in obj.validity], [node.start, node.end], "wrong validity", case=case)
    require((int(obj.degree), int(obj.min_degree), obj.is_internal) == (node.degree, node.min_degree, case["internal"]),
            "wrong degrees", got=[obj.degree, obj.min_degree], expected=[node.degree, node.min_degree], case=case)
    times = np.array(case["times"])
    kw = options_of(case)
    degree = int(node.degree)
    many, many_degree = obj(times, **kw)
    require_shape(many, times.shape + (ncoef(many_degree), 2), "coefficients")
    require(many_degree <= degree, "too high degree", got=many_degree)
    require_same(obj.is_valid(times), [node.is_valid(t) for t in times], "wrong flags of validity")
    for i, t in enumerate(times):
        if not node.is_valid(t):
            # whatever is extrapolated does not depend on the way the time is given
            one, one_degree = obj(float(t), **kw)
            require_shape(one, (ncoef(one_degree), 2), "coefficients")
            full = np.zeros_like(many[i])
            full[:len(one)] = one[:len(full)]
            require_close(full, many[i], 1e-13 * np.abs(full).max(initial=0.0), "extrapolated coefficients differ for the scalar and array time", time=float(t), case=case)
            continue
        if overlap(node, t):
            ctx.nontrivial("overlap")
        one, one_degree = obj(float(t), **kw)
        require_shape(one, (ncoef(one_degree), 2), "coefficients")
        require(one_degree <= many_degree, "degrees of the scalar and array times", got=[one_degree, many_degree], case=case)
        leaves = node.first(t)
        cands = [(v.astype(float), 4e-15 * a.astype(float)) for v, a in sums(leaves, t, case, degree)]
        for got, what in [(one, "scalar time"), (many[i], "array of times")]:
            full = np.zeros((ncoef(degree), 2))
            full[:len(got)] = got
            require_one_of(full, cands, "wrong coefficients of the " + what, time=float(t), case=case)


@st.composite
def model_cases(draw):
    case = draw(set_cases())
    case["kind"] = draw(st.integers(0, 2))
    case["points"] = draw(st.lists(gen.positions(case["kind"], rmin=5000.0, rmax=10000.0, hmin=-100.0, hmax=3000.0), min_size=1, max_size=2))
    return case


@check(model_cases(), quick=4000, thorough=200000,
       rule="models of the nested sets evaluated at scalar and array times; non-trivial at times where more than one composed set is valid")
def models(case, ctx):
    node = Node(case["tree"], case["internal"])
    model = SphericalHarmomicGeomagneticModel(node.obj)
    require_same([float(v) for v in model.validity], [node.start, node.end], "wrong validity of the model")
    require((model.degree, model.min_degree) == (node.degree, node.min_degree), "wrong degrees of the model")
    times = np.array(case["times"])
    pts = np.array([case["points"][i % len(case["points"])] for i in range(len(times))])
    kind = KINDS[case["kind"]]
    kw = dict(options_of(case), input_coordinate_system=kind, output_coordinate_system=kind)
    many = model.eval(mg.layout(times, case["style"]), mg.layout(pts, case["style"]), **kw)
    require_shape(many, (len(times), 3))
    degree = int(node.degree)
    for i, t in enumerate(times):
        p = [float(v) for v in pts[i]]
        one = model.eval(float(t), p, **kw)
        require_shape(one, (3,))
        if not node.is_valid(t):
            ctx.label("out of validity")
            require(np.all(np.isnan(one)) and np.all(np.isnan(many[i])), "a value out of validity", time=float(t), got=[one, many[i]], case=case)
            continue
        if overlap(node, t):
            ctx.nontrivial("overlap")
        # at the very bounds of the sets any of the valid ones is accepted
        edge = any(t == e for e in node.edges)
        choices = node.choices(t)[:64] if edge else [node.first(t)]
        cands = []
        for leaves in choices:
            for coef, amp in sums(leaves, t, case, degree):
                _, g, _, gtol = expected_at(coef, degree, p, case["kind"], case["kind"], case["internal"], amp=amp)
                cands.append((-g, gtol))
        if edge:
            ctx.label("bound")
        require_one_of(many[i], cands, "wrong field of the array", time=float(t), point=p, case=case)
        require_one_of(one, cands, "wrong field of the single time", time=float(t), point=p, case=case)
        require_close(one, many[i], max(float(np.max(c[1])) for c in cands), "scalar and array evaluation differ", time=float(t), point=p, case=case)
    # times of two dimensions
    both = model.eval(np.stack([times, times[::-1]]), np.stack([pts, pts[::-1]]), **kw)
    require_shape(both, (2, len(times), 3))
    require_close(both[0], many, 1e-12 * np.nan_to_num(np.abs(many)).max(), "two-dimensional evaluation differs", case=case)
    require_close(both[1][::-1], many, 1e-12 * np.nan_to_num(np.abs(many)).max(), "two-dimensional evaluation differs", case=case)


@st.composite
def gap_cases(draw):
    count = draw(st.integers(2, 5))
    items = []
    for _ in range(count):
        a = draw(st.integers(FIRST, LAST - 1))
        items.append(draw(leaf(a, min(a + draw(st.integers(1, 4)), LAST))))
    return {"items": items, "external": draw(st.sampled_from([None, None, None, 0, 1])), "op": draw(st.sampled_from(["comb", "comp", "comp"]))}


@check(gap_cases(), quick=4000, thorough=100000,
       rule="sets of any validities: gaps and mixtures of internal and external sets are rejected, everything else is accepted; non-trivial with a gap or a mixture")
def consistency(case, ctx):
    nodes = [Node(s, i != case["external"]) for i, s in enumerate(case["items"])]
    mixed = case["external"] is not None
    gap, reach = False, None
    for node in sorted(nodes, key=lambda n: n.start):
        gap = gap or (reach is not None and node.start > reach)
        reach = node.end if reach is None else max(reach, node.end)
    bad = mixed or (gap and case["op"] == "comp")
    if bad:
        ctx.nontrivial("mixed" if mixed else "gap")
    try:
        obj = CLASSES[case["op"]](*[n.obj for n in nodes])
    except ValueError as exc:
        require(bad, "consistent sets are rejected", error=str(exc), case=case)
        return
    require(not bad, "inconsistent sets are accepted", mixed=mixed, case=case)
    start = (max if case["op"] == "comb" else min)(n.start for n in nodes)
    end = (min if case["op"] == "comb" else max)(n.end for n in nodes)
    require_same([float(v) for v in obj.validity], [start, end], "wrong validity", case=case)
    if start > end:
        model = SphericalHarmomicGeomagneticModel(obj)
        times = np.array(GRID)
        require(np.all(np.isnan(model.eval(times, np.tile([45.0, 10.0, 6500.0], (len(times), 1))))), "a value of a never valid model", case=case)
        require(np.all(np.isnan(model.eval(GRID[3], [45.0, 10.0, 6500.0]))), "a value of a never valid model", case=case)


@check(st.tuples(set_cases(depth=2), st.integers(0, 2 ** 30)), quick=2000, thorough=80000,
       rule="order of combined sets, nested and flat combinations and single sets are equivalent; order of composed non-overlapping sets is irrelevant; non-trivial with more than one item")
def algebra(case, ctx):
    case, seed = case
    nodes = [Node(s, case["internal"]) for s in [case["tree"]] + case["tree"].get("items", [])[:2]]
    if len(nodes) > 1:
        ctx.nontrivial(case["tree"]["op"])
    times = np.array(case["times"])
    times = times[[all(n.is_valid(t) and all(t != e for e in n.edges) for n in nodes) for t in times]]
    if not len(times):
        return
    objs = [n.obj for n in nodes]
    order = gen.rng(seed).permutation(len(objs))
    flat = CombinedSHCoefficients(*objs)
    variants = [CombinedSHCoefficients(*[objs[i] for i in order]), CombinedSHCoefficients(objs[0], CombinedSHCoefficients(*objs[1:])) if len(objs) > 1 else flat,
                ComposedSHCoefficients(flat), CombinedSHCoefficients(flat), ComposedSHCoefficients(flat, flat), ComposedSHCoefficients(flat, objs[0])]
    pts = np.tile([30.0, -50.0, 6600.0], (len(times), 1))
    base, degree = flat(times)
    field = SphericalHarmomicGeomagneticModel(flat).eval(times, pts)
    for k, var in enumerate(variants):
        coef, deg = var(times)
        size = min(len(base[0]), len(coef[0]))
        scale = np.abs(base).max() + sum(np.abs(o(times)[0]).max() for o in objs)
        require(not np.any(coef[:, size:]) and not np.any(base[:, size:]), "wrong degree", variant=k, case=case)
        require_close(coef[:, :size], base[:, :size], 1e-12 * scale, "coefficients of an equivalent set", variant=k, case=case)
        require_close(SphericalHarmomicGeomagneticModel(var).eval(times, pts), field, 1e-11 * scale * 20, "field of an equivalent set", variant=k, case=case)


@st.composite
def many_cases(draw):
    # one or two sets which vary in time anywhere among constant ones, rarely more
    varying = draw(st.sampled_from([("dy",), ("mjd",), ("mjd", "dy")]))
    kinds = [("const",)] * draw(st.one_of(st.integers(3, 12), st.integers(10, 40))) + [varying] * draw(st.sampled_from([1, 1, 1, 2, 2, 4]))
    items = [draw(mg.leaf_spec(max_degree=4, span=(1000.0, 3000.0), kinds=k, validity=False)) for k in kinds]
    return {"items": draw(st.permutations(items)), "times": draw(st.lists(gen.finite(0.0, 4000.0), min_size=1, max_size=3)), "point": draw(gen.positions(1, rmin=6000.0, rmax=8000.0)), "seed": draw(gen.SEED)}


@check(many_cases(), quick=600, thorough=30000, rule="4-44 constant and time dependent sets of different time scales combined at once; non-trivial when they have two time scales")
def many_sets(case, ctx):
    """many combined sets are the sum of them all"""
    leaves = [mg.Leaf(s, True).obj for s in case["items"]]
    scales = {v for s in leaves for v in s.time_scales}
    both = CombinedSHCoefficients(*leaves)
    require(set(both.time_scales) == scales, "wrong time scales", got=both.time_scales)
    if len(scales) > 1:
        ctx.nontrivial()
    start, end = max(float(s.validity[0]) for s in leaves), min(float(s.validity[1]) for s in leaves)
    require_same([float(v) for v in both.validity], [start, end], "wrong validity", case=case)
    times = np.array(case["times"])
    got, degree = both(times)
    total, size = np.zeros_like(got), 0.0
    for leaf in leaves:
        part, _ = leaf(times)
        total[:, :part.shape[1]] += part
        size = size + np.abs(part).max()
    require_close(got, total, 1e-14 * size, "combined coefficients are not the sum of the parts", case=case)
    inside = times[(times >= start) & (times <= end)]
    model = SphericalHarmomicGeomagneticModel(both)
    parts = [SphericalHarmomicGeomagneticModel(leaf) for leaf in leaves]
    point = [float(v) for v in case["point"]]
    for t in [float(v) for v in inside] + ([(start + end) / 2] if start < end and np.isfinite(start + end) else []):
        fields = np.array([part.eval(t, point) for part in parts])
        require_close(model.eval(t, point), fields.sum(axis=0), 1e-12 * np.abs(fields).sum(), "the field is not the sum of the fields of the parts", time=t, case=case)
        require_close(model.eval(np.array([t]), np.array([point]))[0], fields.sum(axis=0), 1e-12 * np.abs(fields).sum(), "the field is not the sum of the fields of the parts", time=t, case=case)


INDEX_FORMS = ["i1", "i2", "i4", "i8", ">i2", "u1", "u2", "list", "tuple"]
VALUE_FORMS = ["f8", "f4", "i2", "i4", ">f8", "list", "strided"]


@st.composite
def form_cases(draw):
    kind = draw(st.sampled_from(["const", "mjd", "mjd", "dy"]))
    index = draw(st.sampled_from(INDEX_FORMS))
    top = 126 if index in ("i1", "u1") else 200
    nm = [[n, draw(st.integers(0 if index[0] == "u" else -n, n))] for n in draw(st.lists(st.one_of(st.integers(0, 20), st.integers(0, top)), min_size=1, max_size=4))]
    nm = [list(v) for v in dict.fromkeys(map(tuple, nm))]
    nodes = sorted(draw(st.lists(st.integers(1990, 2030) if kind == "dy" else st.integers(-4000, 9000), min_size=2, max_size=4, unique=True)))
    return {"kind": kind, "nm": nm, "nodes": nodes, "order": draw(st.sampled_from([1, 2])), "seed": draw(gen.SEED),
            "index": index, "values": draw(st.sampled_from(VALUE_FORMS)), "times": draw(st.sampled_from(VALUE_FORMS)),
            "at": draw(st.lists(st.integers(-3000, 9000), min_size=1, max_size=3)), "form": draw(st.sampled_from(["list", "float", "int", "0d", "f4", "i4", "tuple", "strided"])),
            "place": draw(st.sampled_from(["list", "f4", "tuple", "strided"]))}


def formed(values, form):
    """the same numbers given in another form"""
    if form == "list":
        return np.asarray(values).tolist()
    if form == "tuple":
        return tuple(tuple(v) if isinstance(v, list) else v for v in np.asarray(values).tolist())
    if form == "strided":
        a = np.asarray(values, dtype="f8")
        big = np.full([2 * v + 1 for v in a.shape], np.nan)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if form == "float":
        return float(np.ravel(values)[0])
    if form == "int":
        return int(np.ravel(values)[0])
    if form == "0d":
        return np.array(float(np.ravel(values)[0]))
    return np.asarray(values).astype(form)


@check(form_cases(), quick=2500, thorough=60000,
       rule="indices, coefficients, nodes, times and positions given as lists, tuples, strided arrays or arrays of other numeric types, degrees up to 200; non-trivial when degree is above 10")
def forms(case, ctx):
    """numbers mean the same in any form"""
    from eoxmagmod.magnetic_model import coefficients as co
    r = gen.rng(case["seed"])
    cls = {"const": co.SparseSHCoefficientsConstant, "mjd": co.SparseSHCoefficientsTimeDependent, "dy": co.SparseSHCoefficientsTimeDependentDecimalYear}[case["kind"]]
    values = r.integers(-9999, 9999, (len(case["nm"]), len(case["nodes"])))
    if case["kind"] == "const":
        values = values[:, 0]
    if max(v[0] for v in case["nm"]) > 10:
        ctx.nontrivial(case["index"])

    def make(index, vals, nodes):
        if case["kind"] == "const":
            return cls(index, vals)
        return cls(index, vals, nodes, spline_order=case["order"])

    plain = make(np.array(case["nm"]), values.astype("f8"), np.array(case["nodes"], dtype="f8"))
    other = make(formed(case["nm"], case["index"]), formed(values, case["values"]), formed(case["nodes"], case["times"]))
    require_same([other.degree, other.min_degree], [plain.degree, plain.min_degree], "degree depends on the form of the arguments", case=case)
    require_same([float(v) for v in other.validity], [float(v) for v in plain.validity], "validity depends on the form of the arguments", case=case)
    times = np.array(case["at"], dtype="f8")
    given = formed(times, case["form"])
    ref_times = np.asarray(given, dtype="f8")
    base, degree = plain(ref_times)
    got, deg = other(given)
    require(deg == degree, "degree depends on the form of the arguments", case=case)
    require_same(got, base, "coefficients depend on the form of the arguments", case=case)
    if case["kind"] != "const":
        # independent of the tested code
        expected = np.zeros(base.shape)
        clock = ref_times
        if case["kind"] == "dy":
            clock = np.reshape([float(mg.decimal_year(t)) for t in np.ravel(ref_times)], ref_times.shape)
        for (n, m), row in zip(case["nm"], values):
            from vh.shgen import interpolated
            for k in np.ndindex(ref_times.shape):
                val, _ = interpolated([float(v) for v in case["nodes"]], row[None, :].astype(float), clock[k], case["order"])
                expected[k + (n * (n + 1) // 2 + abs(m), int(m < 0))] = float(val[0])
        if not (case["order"] == 1 and case["kind"] == "dy"):
            spread = 1 + np.max(np.abs(np.subtract.outer(np.ravel(clock), case["nodes"])))
            require_close(got, expected, 1e-10 * 1e4 * spread, "wrong coefficients", case=case)
    pos = r.uniform([-80, -170, 6500], [80, 170, 8000], (*ref_times.shape, 3)).astype("f4")
    where = formed(pos.astype("f8"), case["place"])
    if case["place"] == "tuple":
        where = pos.astype("f8").tolist()
    field = SphericalHarmomicGeomagneticModel(plain).eval(ref_times, pos.astype("f8"))
    require_same(SphericalHarmomicGeomagneticModel(other).eval(given, where), field, "field depends on the form of the arguments", case=case)
