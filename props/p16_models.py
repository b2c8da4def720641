"""P16 evaluation of spherical harmonic models"""
import itertools
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import CombinedSHCoefficients, ComposedSHCoefficients
from vh import gen, ref, modelgen as mg
from vh.shgen import KINDS, RANGE, ncoef, expected_at
from vh.core import check, require, require_shape, require_close, require_same

DEGREES = st.one_of(st.none(), st.none(), st.integers(-1, 10))
SCALES = st.sampled_from([None, None, None, 1.0, -1.0, 0.5, 2, 0.0, [1.0, -2.0, 3.0]])
STYLES = st.sampled_from(["plain", "plain", "list", "strided", "fortran", "reversed"])


def options_of(case):
    return {k: case[k] for k in ("min_degree", "max_degree", "scale") if case[k] is not None}


def limits(case):
    lo, hi = case["min_degree"], case["max_degree"]
    return -1 if lo is None else lo, -1 if hi is None else hi


@st.composite
def model_cases(draw, dipole=False):
    spec = draw(mg.leaf_spec())
    nodes = mg.leaf_times(spec, spec.get("nodes", []))
    bounds = list((nodes[0], nodes[-1]) if nodes else (-1000.0, 1000.0))
    for i, v in enumerate(mg.leaf_times(spec, spec.get("validity") or [])):
        if v is not None:
            bounds[i] = v
    kin = draw(st.integers(0, 2))
    case = {"spec": spec, "internal": draw(st.sampled_from([True, True, False])), "kin": kin, "kout": draw(st.integers(0, 2)),
            "times": draw(st.lists(mg.times_of(bounds, nodes), min_size=1, max_size=3)),
            "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=3)),
            "shapes": draw(mg.shapes), "seed": draw(gen.SEED), "styles": draw(st.tuples(STYLES, STYLES)),
            "min_degree": draw(DEGREES), "max_degree": draw(DEGREES), "scale": draw(SCALES)}
    if dipole:
        case["pole"] = draw(st.one_of(st.tuples(gen.finite(75, 90), gen.finite(-180, 180)), st.tuples(gen.finite(-90, 90), gen.finite(-180, 180)),
                                      st.sampled_from([(90.0, 0.0), (80.08, -72.22), (-90.0, 0.0), (0.0, 0.0)])))
    return case


def arguments(case):
    tshape, lshape = [tuple(s) for s in case["shapes"]]
    times = mg.fill(case["times"], tshape, case["seed"])
    points = mg.fill(case["points"], lshape, case["seed"] + 1).reshape(lshape + (3,))
    shape, index = mg.pairs(tshape, lshape)
    args = mg.layout(times, case["styles"][0]), mg.layout(points, case["styles"][1])
    if not tshape:
        args = (float(times), args[1])
    if 0 in lshape:
        args = (args[0], points)
    if 0 in tshape:
        args = (times, args[1])
    return args, shape, [(i, float(times[j]), [float(v) for v in points[k]]) for i, j, k in index]


def frames(case):
    kw = {}
    if case["kin"] != 1 or case["seed"] % 2:
        kw["input_coordinate_system"] = KINDS[case["kin"]]
    if case["kout"] != 1 or case["seed"] % 2:
        kw["output_coordinate_system"] = KINDS[case["kout"]]
    return kw


def field(leaf, case, t, p, kin, kout):
    """candidates of the field and its tolerance"""
    lo, hi = limits(case)
    degree = int(leaf.degree)
    scale = np.ones(3) * (1.0 if case["scale"] is None else case["scale"])
    out = []
    for part in leaf.at(t, lo, hi):
        coef, amp = mg.total([part], degree)
        _, g, _, gtol = expected_at(coef, degree, p, kin, kout, case["internal"], amp=amp)
        out.append((-g, gtol, scale))
    return out


def require_any(got, candidates, msg, **values):
    for vec, tol, scale in candidates[:-1]:
        if np.all(np.abs(got - vec * scale) <= tol * np.abs(scale)):
            return
    vec, tol, scale = candidates[-1]
    require_close(got, vec * scale, tol * np.abs(scale), msg, **values)


@check(model_cases(), quick=6000, thorough=300000,
       rule="constant and time-dependent sets (MJD2000, converted times, decimal years; piecewise constant and linear; own validities), broadcast times and positions of 0-3 dimensions in any memory layout, frames, degree ranges, scales; non-trivial with a valid time and a nonzero field")
def geographic(case, ctx):
    leaf = mg.Leaf(case["spec"], case["internal"])
    leaf.check_validity()
    model = SphericalHarmomicGeomagneticModel(leaf.obj)
    require_same(model.validity, leaf.validity, "validity of the model")
    require((model.degree, model.min_degree) == (leaf.degree, leaf.min_degree), "degrees of the model", got=[model.degree, model.min_degree])
    args, shape, index = arguments(case)
    copies = [np.copy(a) for a in args]
    res = model.eval(*args, **frames(case), **options_of(case))
    for a, b in zip(args, copies):
        require_same(a, b, "arguments modified")
    require_shape(res, shape + (3,))
    for i, t, p in index:
        if not leaf.is_valid(t):
            ctx.label("out of validity")
            require(np.all(np.isnan(res[i])), "a value out of validity", time=t, validity=leaf.validity, got=res[i], case=case)
            continue
        exp = field(leaf, case, t, p, case["kin"], case["kout"])
        if np.any(exp[0][0]):
            ctx.nontrivial(leaf.kind + " " + "x".join("%d" % len(s) for s in case["shapes"]))
        require_any(res[i], exp, "wrong field", time=t, point=p, case=case)


@check(model_cases(), quick=2500, thorough=100000,
       rule="as above, element-wise single evaluations; non-trivial with an array argument")
def elementwise(case, ctx):
    leaf = mg.Leaf(case["spec"], case["internal"])
    model = SphericalHarmomicGeomagneticModel(leaf.obj)
    args, shape, index = arguments(case)
    kw = dict(frames(case), **options_of(case))
    res = model.eval(*args, **kw)
    scale = np.max(np.abs(case["scale"])) if case["scale"] is not None else 1.0
    for i, t, p in index:
        if len(index) > 1:
            ctx.nontrivial()
        one = model.eval(t, p, **kw)
        require_shape(one, (3,))
        size = 0.0
        if leaf.is_valid(t):
            size = float(scale) * field(leaf, case, t, p, case["kin"], case["kout"])[0][1]
        require_close(res[i], one, size, "differs from the single evaluation", time=t, point=p, case=case)
        again = model.eval(np.array([t]), np.array([p]), **kw)
        require_close(again[0], one, size, "the scalar and array evaluations differ", time=t, point=p, case=case)


@check(model_cases(), quick=3000, thorough=100000,
       rule="coefficients at scalar and array times with degree limits; non-trivial inside of the validity with some coefficients selected")
def coefficients(case, ctx):
    leaf = mg.Leaf(case["spec"], case["internal"])
    obj = leaf.obj
    require((obj.degree, obj.min_degree, obj.is_internal) == (leaf.degree, leaf.min_degree, case["internal"]), "attributes of the set")
    (times, _), _, _ = arguments(case)
    times = np.array(times, dtype=float)
    kw = {k: v for k, v in options_of(case).items()}
    lo, hi = limits(case)
    coef, degree = obj(times if times.ndim else float(times), **kw)
    selected = [n for n, m in leaf.nm if (lo < 0 or n >= lo) and (hi < 0 or n <= hi)]
    require(degree == max(selected, default=0), "wrong degree of the subset", got=degree, expected=max(selected, default=0), case=case)
    require_shape(coef, times.shape + (ncoef(degree), 2), "coefficients")
    mask = obj.is_valid(times)
    for i in np.ndindex(*times.shape):
        t = float(times[i])
        require(bool(np.asarray(mask)[i]) == leaf.is_valid(t), "wrong flag of validity", time=t, validity=leaf.validity)
        if not leaf.is_valid(t):
            continue
        if selected:
            ctx.nontrivial()
        cands = []
        for part in leaf.at(t, lo, hi):
            val, amp = mg.total([part], int(degree))
            cands.append((val.astype(float), 4e-15 * amp.astype(float), 1.0))
        require_any(coef[i], cands, "wrong coefficients", time=t, case=case)


@check(model_cases(dipole=True), quick=4000, thorough=200000,
       rule="models in the dipole frame of any north pole, as above; non-trivial when the pole is not the geographic one and the field is not zero")
def dipole(case, ctx):
    leaf = mg.Leaf(case["spec"], case["internal"])
    model = DipoleSphericalHarmomicGeomagneticModel(leaf.obj, tuple(case["pole"]))
    require_same(model.validity, leaf.validity, "validity of the model")
    args, shape, index = arguments(case)
    copies = [np.copy(a) for a in args]
    res = model.eval(*args, **frames(case), **options_of(case))
    for a, b in zip(args, copies):
        require_same(a, b, "arguments modified")
    require_shape(res, shape + (3,))
    axes = mg.pole_frame(*case["pole"])
    for i, t, p in index:
        if not leaf.is_valid(t):
            ctx.label("out of validity")
            require(np.all(np.isnan(res[i])), "a value out of validity", time=t, validity=leaf.validity, got=res[i], case=case)
            continue
        cart = axes @ ref.to_cart(np.array(p), case["kin"])
        # field in the Cartesian dipole frame
        exp = field(leaf, case, t, [float(v) for v in cart], 2, 2)
        out = ref.convert(np.array(p), case["kin"], case["kout"])
        rot = ref.frame(out, case["kout"])
        lon_err = abs(np.radians(float(p[1]))) if case["kin"] < 2 else 0.0
        cands = []
        for vec, tol, scale in exp:
            full = (rot @ (axes.T @ vec.astype(ref.LD))).astype(float)
            # rounding of the rotations and of the dipole coordinates
            colat = float(np.hypot(float(cart[0]), float(cart[1])) / np.linalg.norm(cart.astype(float)))
            t2 = tol * (8 + lon_err) + 4e-15 * np.linalg.norm(vec) * (4 + lon_err + leaf.degree)
            if colat < 1e-6:
                t2 = t2 + 5e-8 * np.linalg.norm(vec) * 0 + tol * 100
            cands.append((full, t2, scale))
        if np.any(exp[0][0]) and abs(case["pole"][0]) != 90:
            ctx.nontrivial(leaf.kind)
        require_any(res[i], cands, "wrong field", time=t, point=p, pole=case["pole"], case=case)


@check(st.tuples(model_cases(), st.integers(0, 10)), quick=2500, thorough=100000,
       rule="evaluation of the interpolated series against coefficients at the time passed to the low level function, and splitting in degrees; non-trivial when both parts are not zero")
def optimised_and_default(case, ctx):
    case, split = case
    leaf = mg.Leaf(case["spec"], case["internal"])
    model = SphericalHarmomicGeomagneticModel(leaf.obj)
    args, shape, index = arguments(case)
    kin, kout = KINDS[case["kin"]], KINDS[case["kout"]]
    kw = {"input_coordinate_system": kin, "output_coordinate_system": kout}
    full = model.eval(*args, **kw)
    low = model.eval(*args, **kw, max_degree=split)
    high = model.eval(*args, **kw, min_degree=split + 1)
    # a custom class of coefficients is evaluated time by time
    plain = SphericalHarmomicGeomagneticModel(Wrapped(leaf.obj)).eval(*args, **kw)
    single = CombinedSHCoefficients(leaf.obj)
    require(single is leaf.obj, "a combination of one set is not the set")
    none = dict(case, min_degree=None, max_degree=None, scale=None)
    for i, t, p in index:
        if not leaf.is_valid(t):
            continue
        tol = field(leaf, none, t, p, case["kin"], case["kout"])[0][1]
        if np.any(low[i]) and np.any(high[i]):
            ctx.nontrivial()
        coef, degree = leaf.obj(t)
        static = -em.sheval(p, coef, kin, kout, em.GRADIENT, degree=degree, is_internal=case["internal"])
        require_close(full[i], static, 2 * tol, "differs from the static evaluation", time=t, point=p, case=case)
        require_close(low[i] + high[i], full[i], 3 * tol, "the degrees do not sum", time=t, point=p, split=split, case=case)
        require_close(plain[i], full[i], 2 * tol, "default and optimised evaluation differ", time=t, point=p, case=case)


class Wrapped:
    """coefficients of an unknown class"""

    def __init__(self, obj):
        self._obj = obj
        self.degree, self.min_degree, self.validity, self.is_internal = obj.degree, obj.min_degree, obj.validity, obj.is_internal
        self.time_scales = ("custom",)

    def decompose(self):
        return [(self.validity, self)]

    def __call__(self, time, **kwargs):
        return self._obj(time, **kwargs)


@st.composite
def set_cases(draw):
    """several sets with a common period of validity"""
    lo, hi = -3000, 8000
    op = draw(st.sampled_from(["combined", "combined", "composed"]))
    items = []
    for _ in range(draw(st.integers(2, 3))):
        spec = draw(mg.leaf_spec(max_degree=5, span=(float(lo), float(hi)), validity=False))
        spec.pop("shuffle", None)
        spec.pop("conv", None)
        if op == "composed" or draw(st.booleans()):
            # validities contain the time zero: no gaps
            bounds = [float(draw(st.integers(lo, -1))), float(draw(st.integers(1, hi)))]
            spec["validity"] = bounds if spec["kind"] != "dy" else [float(mg.simple_year(v)) if spec.get("simple") else float(mg.decimal_year(v)) for v in bounds]
        items.append(spec)
    kin = draw(st.integers(0, 2))
    inside = gen.finite(float(lo) - 500, float(hi) + 500)
    edges = sorted({v for s in items if s["kind"] != "dy" and "validity" in s for v in s["validity"]})
    if edges:
        inside = st.one_of(inside, st.sampled_from(edges))
    return {"op": op, "items": items, "internal": draw(st.booleans()), "kin": kin, "kout": draw(st.integers(0, 2)),
            "times": draw(st.lists(st.one_of(inside, inside, gen.finite(-100, 100)), min_size=1, max_size=4)),
            "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=2)),
            "min_degree": draw(DEGREES), "max_degree": draw(DEGREES), "scale": draw(SCALES)}


@check(set_cases(), quick=3000, thorough=150000,
       rule="models of 2-3 combined or composed sets of mixed kinds and time scales, scalar and array times; non-trivial with sets of different kinds valid at the time")
def several_sets(case, ctx):
    leaves = [mg.Leaf(s, case["internal"]) for s in case["items"]]
    model = SphericalHarmomicGeomagneticModel({"combined": CombinedSHCoefficients, "composed": ComposedSHCoefficients}[case["op"]](*[v.obj for v in leaves]))
    starts, ends = zip(*(v.validity for v in leaves))
    combined = case["op"] == "combined"
    start, end = (max(starts), min(ends)) if combined else (min(starts), max(ends))
    require_same([float(v) for v in model.validity], [start, end], "validity of the model", case=case)
    times = np.array(case["times"])
    pts = np.array([case["points"][i % len(case["points"])] for i in range(len(times))])
    kw = dict(input_coordinate_system=KINDS[case["kin"]], output_coordinate_system=KINDS[case["kout"]], **options_of(case))
    many = model.eval(times, pts, **kw)
    require_shape(many, (len(times), 3))
    lo, hi = limits(case)
    degree = max(int(v.degree) for v in leaves)
    scale = np.ones(3) * (1.0 if case["scale"] is None else case["scale"])
    for i, t in enumerate(case["times"]):
        p = [float(v) for v in pts[i]]
        one = model.eval(t, p, **kw)
        if not start <= t <= end:
            require(np.all(np.isnan(many[i])) and np.all(np.isnan(one)), "a value out of validity", time=t, got=[one, many[i]], case=case)
            continue
        if combined or not any(t in v.validity for v in leaves):
            options = [leaves if combined else [next(v for v in leaves if v.is_valid(t))]]
        else:
            # on the boundary of a set any of the valid ones, the same for arrays and single times
            options = [[v] for v in leaves if v.is_valid(t)]
        used = options[0]
        if len({v.kind for v in used if v.kind != "const"}) > 1 or (not combined and sum(v.is_valid(t) for v in leaves) > 1):
            ctx.nontrivial(case["op"])
        cands = []
        for parts in itertools.chain(*(itertools.islice(itertools.product(*(v.at(t, lo, hi) for v in used)), 16) for used in options)):
            coef, amp = mg.total(parts, degree)
            _, g, _, gtol = expected_at(coef, degree, p, case["kin"], case["kout"], case["internal"], amp=amp)
            cands.append((-g, gtol, scale))
        require_any(one, cands, "wrong field of the sets", time=t, point=p, case=case)
        require_any(many[i], cands, "wrong field of the sets at an array of times", time=t, point=p, case=case)
        require_close(many[i], one, 2 * max(float(np.max(c[1])) for c in cands) * np.abs(scale), "different fields of a single time and an array of times", time=t, point=p, case=case)
