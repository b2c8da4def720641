"""Generated coefficient sets of the models and their reference values."""
import datetime as dt
import numpy as np
from hypothesis import strategies as st
from eoxmagmod import time_util as tu
from eoxmagmod.magnetic_model import coefficients as co
from vh import gen, ref
from vh.shgen import nm_lists, dense, interpolated
from vh.core import require_close

EPOCH = dt.date(2000, 1, 1).toordinal()


def year_start(year):
    return dt.date(year, 1, 1).toordinal() - EPOCH


def decimal_year(mjd):
    """decimal year of MJD2000 in extended precision"""
    year = dt.date.fromordinal(int(np.floor(mjd)) + EPOCH).year
    first = year_start(year)
    return year + (ref.LD(mjd) - first) / (year_start(year + 1) - first)


def from_year(year):
    base = int(np.floor(year))
    first = year_start(base)
    return first + (ref.LD(year) - base) * (year_start(base + 1) - first)


def simple_year(mjd):
    return 2000 + ref.LD(mjd) / ref.LD(365.25)


def from_simple_year(year):
    return (ref.LD(year) - 2000) * ref.LD(365.25)


def leaf_times(spec, values):
    """MJD2000 of the times of the specification"""
    if spec["kind"] != "dy":
        return list(values)
    func = from_simple_year if spec.get("simple") else from_year
    return [None if v is None else float(func(v)) for v in values]


# conversions of times given by the user
CONVERSIONS = {"hours": (lambda v: v / 24.0, 1 / 24.0, 0.0), "shift": (lambda v: v - 40000.0, 1.0, -40000.0)}


@st.composite
def leaf_spec(draw, max_degree=8, span=(-4000.0, 9000.0), kinds=("const", "mjd", "mjd", "dy"), validity=True):
    """one set of sparse coefficients; times of the spec are in MJD2000 (decimal years of 'dy')"""
    kind = draw(st.sampled_from(kinds))
    spec = {"kind": kind, "nm": draw(nm_lists(max_degree)), "seed": draw(gen.SEED)}
    lo, hi = span
    if kind == "dy":
        lo, hi = float(decimal_year(lo)), float(decimal_year(hi))
        lo, hi = float(np.ceil(lo)), float(np.floor(hi))
    value = st.one_of(st.integers(int(lo), int(hi)).map(float), gen.finite(lo, hi))
    if kind == "const":
        if validity and draw(st.booleans()):
            spec["validity"] = sorted(draw(st.lists(st.integers(int(lo), int(hi)).map(float), min_size=2, max_size=2, unique=True)))
            if draw(st.integers(0, 3)) == 0:
                spec["validity"][draw(st.integers(0, 1))] = None
        return spec
    order = spec["order"] = draw(st.sampled_from([1, 2, 2]))
    gap = 0.01 if kind == "dy" else 0.5
    times = sorted(draw(st.lists(value, min_size=2, max_size=5, unique=True)))
    nodes = times[:1]
    for t in times[1:]:
        if t - nodes[-1] > gap:
            nodes.append(t)
    if len(nodes) < 2:
        nodes.append(nodes[0] + (hi - lo) / 8)
    spec["nodes"] = nodes
    if validity and draw(st.integers(0, 2)) == 0:
        spec["validity"] = sorted(draw(st.lists(value, min_size=2, max_size=2, unique=True)))
        if draw(st.integers(0, 3)) == 0:
            spec["validity"][draw(st.integers(0, 1))] = None
    if kind == "dy" and draw(st.integers(0, 3)) == 0:
        spec["simple"] = True
    if kind == "mjd" and draw(st.integers(0, 4)) == 0:
        spec["conv"] = draw(st.sampled_from(sorted(CONVERSIONS)))
    if draw(st.integers(0, 3)) == 0:
        spec["shuffle"] = draw(st.permutations(range(len(nodes))))
    return spec


class RefSet:
    """reference of sparse coefficients: values (n, t) at the nodes,
    interpolated in MJD2000 or (kind 'dy') in decimal years"""
    fuzz = 0.0      # rounding of the nodes

    def __init__(self, kind, nm, values, nodes=None, order=2, simple=False, fuzz=0.0):
        self.kind, self.nm, self.values, self.order, self.simple = kind, [tuple(v) for v in nm], np.asarray(values), order, simple
        self.nodes = None if nodes is None else [float(v) for v in nodes]
        self.fuzz = fuzz

    def at(self, t, lo=-1, hi=-1):
        """candidates of {(n, m): (value, magnitude)} at the time"""
        extra = self.fuzz
        xs = [float(t)]
        nodes = self.nodes
        if self.kind == "dy":
            xs = [(simple_year if self.simple else decimal_year)(t)]
            extra = max(extra, 1e-12)
        if extra and self.order == 1 and self.kind != "const":
            near = [v for v in nodes if abs(xs[0] - v) < 1000 * extra]
            if near:
                xs = [near[0], near[0] - 1000 * extra]
        out = []
        for x in xs:
            if self.kind == "const":
                val = mag = self.values[:, 0].astype(ref.LD)
            else:
                val, mag = interpolated(nodes, self.values, x, self.order)
                if extra and self.order == 2:
                    slope = np.abs(np.diff(self.values, axis=1)).max(axis=1) / np.diff(nodes).min()
                    scale = 1 + np.abs(x - nodes[0]) / np.diff(nodes).min() * (self.fuzz > 0)
                    mag = mag + slope * extra * scale / 4e-15
            out.append({nm: (v, np.abs(a)) for nm, v, a in zip(self.nm, val, np.asarray(mag))
                        if (lo < 0 or nm[0] >= lo) and (hi < 0 or nm[0] <= hi)})
        return out


class Leaf(RefSet):
    """one set of coefficients with its reference"""

    def __init__(self, spec, is_internal=True):
        self.spec = spec
        self.simple = bool(spec.get("simple"))
        kind = spec["kind"]
        self.kind = kind
        self.nm = [tuple(v) for v in spec["nm"]]
        self.order = spec.get("order", 1)
        count = len(spec["nodes"]) if kind != "const" else 1
        n = np.array(self.nm)[:, 0]
        self.values = gen.rng(spec["seed"]).normal(size=(len(self.nm), count)) * (3e4 * 0.7 ** n)[:, None]
        self.values = gen.scatter(spec["seed"], self.values)
        self.degree = max(n)
        self.min_degree = min(n)
        nm = np.array(self.nm)
        kwargs = {} if is_internal else {"is_internal": False}
        valid = spec.get("validity")
        if kind == "const":
            self.nodes = [-np.inf]
            self.bounds = (-np.inf, np.inf)
            if valid:
                self._set(kwargs, valid, lambda v: v)
            self.obj = co.SparseSHCoefficientsConstant(nm, self.values[:, 0].copy(), **kwargs)
        else:
            self.nodes = [float(v) for v in spec["nodes"]]
            self.bounds = (self.nodes[0], self.nodes[-1])
            times = np.array(self.nodes)
            values = self.values.copy()
            inverse, func = (lambda v: v), None
            if spec.get("conv"):
                func, a, b = CONVERSIONS[spec["conv"]]
                inverse = lambda v: (v - b) / a
                kwargs["to_mjd2000"] = func
                times = inverse(times)
                self.nodes = [float(v) for v in func(times)]
                self.bounds = (self.nodes[0], self.nodes[-1])
            if valid:
                self._set(kwargs, valid, inverse, func)
            if spec.get("shuffle"):
                times, values = times[spec["shuffle"]], values[:, spec["shuffle"]]
            if self.order != 2 or spec["seed"] % 2:
                kwargs["spline_order"] = self.order
            if spec.get("simple"):
                kwargs.update(to_mjd2000=tu.decimal_year_to_mjd2000_simple, to_decimal_year=tu.mjd2000_to_decimal_year_simple)
            cls = co.SparseSHCoefficientsTimeDependentDecimalYear if kind == "dy" else co.SparseSHCoefficientsTimeDependent
            self.obj = cls(nm, values, times, **kwargs)
            if kind == "dy":
                self.bounds = tuple(leaf_times(spec, [v])[0] if np.isfinite(v) else v for v in self.bounds)
        self.validity = tuple(float(v) for v in self.obj.validity)

    def _set(self, kwargs, valid, inverse, conv=None):
        bounds = list(self.bounds)
        for i, (name, value) in enumerate(zip(("validity_start", "validity_end"), valid)):
            if value is not None:
                kwargs[name] = inverse(value)
                bounds[i] = value if not conv else float(conv(kwargs[name]))
        self.bounds = tuple(bounds)

    def check_validity(self):
        tol = 2e-9 if self.kind == "dy" else 0.0
        require_close(self.validity, self.bounds, tol, "wrong validity", spec=self.spec)

    def is_valid(self, t):
        return self.validity[0] <= t <= self.validity[1]


def total(parts, degree):
    """dense arrays of the values and the magnitudes of a sum of sets"""
    coef = amp = dense(degree, [], [])
    for part in parts:
        nm = list(part)
        coef = coef + dense(degree, nm, [part[k][0] for k in nm])
        amp = amp + dense(degree, nm, [part[k][1] for k in nm])
    return coef, amp


@st.composite
def times_of(draw, bounds, nodes, near=True):
    """time at, next to, inside of and out of the bounds and nodes (MJD2000)"""
    lo = max(bounds[0], -20000.0)
    hi = min(bounds[1], 20000.0)
    if hi < lo:
        lo, hi = hi, lo
    options = [gen.finite(lo, hi), gen.finite(lo, hi), gen.finite(lo - 2000, hi + 2000), st.sampled_from([lo, hi])]
    if nodes:
        options.append(st.sampled_from(nodes))
    if near:
        options.append(st.sampled_from([float(np.nextafter(lo, -1e9)), float(np.nextafter(hi, 1e9)), float(np.nextafter(lo, 1e9)), float(np.nextafter(hi, -1e9))]))
    return draw(st.one_of(*options))


# ---------------------------------------------------------------------------
# shapes: extents of the times and of the positions with common leading ones

SHAPES = [((), ()), ((), (2,)), ((), (2, 2)), ((2,), (2,)), ((3,), ()), ((2,), (2, 2)), ((2, 2), (2,)), ((2, 1), (2, 1)), ((2, 2), ()), ((1,), (1, 3)), ((0,), (0,)), ((0,), ()), ((), (0,))]
shapes = st.sampled_from(SHAPES)


def pairs(tshape, lshape):
    """result extent and [(index, time index, position index)]"""
    shape = tshape if len(tshape) >= len(lshape) else lshape
    return shape, [(i, i[:len(tshape)], i[:len(lshape)]) for i in np.ndindex(*shape)]


def fill(values, shape, seed):
    """array of the extent filled by the values in a random order"""
    idx = gen.rng(seed).integers(0, len(values), size=shape)
    return np.array(values, dtype=float)[idx]


def layout(array, style):
    """the same values in another memory layout"""
    if style == "list":
        return array.tolist()
    if style == "strided" and array.ndim:
        big = np.full(tuple(2 * s for s in array.shape), -12345.0)
        view = big[tuple(slice(None, None, 2) for _ in array.shape)]
        view[...] = array
        return view
    if style == "fortran":
        return np.asfortranarray(array)
    if style == "reversed" and array.ndim:
        return array[::-1].copy()[::-1]
    return array


# ---------------------------------------------------------------------------
# Fourier expanded (MIO) coefficients

POLES = st.one_of(st.tuples(gen.finite(75, 89), gen.finite(-180, 180)), st.sampled_from([(80.08, -72.22), (80.0, 180.0), (85.0, 0.0)]),
                  st.tuples(gen.finite(-89, 89), gen.finite(-180, 180))).map(list)


@st.composite
def mio_spec(draw, max_degree=5):
    smin, pmin = draw(st.integers(-3, 1)), draw(st.integers(-4, 1))
    return {"kind": "mio", "nm": draw(nm_lists(max_degree, 1, 5)), "seed": draw(gen.SEED), "pole": draw(POLES),
            "ps": [pmin, pmin + draw(st.integers(0, 4)), smin, smin + draw(st.integers(0, 4))],
            "wolf": draw(st.one_of(st.sampled_from([None, None, 0.0, 0.01, 0.02, -0.01]), gen.finite(-0.05, 0.05)))}


def mio_values(spec, salt=0):
    pmin, pmax, smin, smax = spec["ps"]
    return gen.scatter(spec["seed"] + salt, gen.rng(spec["seed"] + salt).normal(size=(len(spec["nm"]), smax - smin + 1, pmax - pmin + 1, 2)) * 30.0)


def fourier_sum(ab, pmin, smin, year_fraction, mut, mut_error=0.0):
    """sum of the series, its error and the sum of magnitudes"""
    ks = (smin + np.arange(ab.shape[-3])).astype(ref.LD)
    kp = (pmin + np.arange(ab.shape[-2])).astype(ref.LD)
    twopi = 2 * np.pi * ref.LD(1)
    x, y = twopi * ref.LD(year_fraction), twopi / 24 * ref.LD(mut)
    arg = ks[:, None] * x + kp[None, :] * y
    val = np.sum(ab[..., 0] * np.cos(arg) + ab[..., 1] * np.sin(arg), axis=(-2, -1))
    amp = np.hypot(ab[..., 0], ab[..., 1])
    weight = 2e-14 + 8e-16 * (np.abs(ks)[:, None] * (1 + abs(x)) + np.abs(kp)[None, :] * (1 + abs(y)))
    weight = weight + np.abs(kp)[None, :] * float(twopi / 24 * mut_error)
    return val, np.sum(amp * weight, axis=(-2, -1)).astype(float), np.sum(amp, axis=(-2, -1)).astype(float)


def pole_frame(lat, lon):
    """axes of the dipole frame"""
    s, c = ref.sincosd(lat)
    sl, cl = ref.sincosd(lon)
    z = np.array([c * cl, c * sl, s])
    y = np.array([-sl, cl, ref.LD(0)])
    return np.array([np.cross(y, z), y, z])


def dipole_field(func, pole, point, kin, kout):
    """rotate the field of the dipole frame to the requested one
    func(Cartesian dipole position) -> (Cartesian dipole vector, tolerance)"""
    axes = pole_frame(*pole)
    cart = axes @ ref.to_cart(np.array(point), kin)
    vec, tol, degree = func([float(v) for v in cart])
    rot = ref.frame(ref.convert(np.array(point), kin, kout), kout)
    lon = abs(np.radians(float(point[1]))) if kin < 2 else 0.0
    full = (rot @ (axes.T @ vec.astype(ref.LD))).astype(float)
    colat = float(np.hypot(float(cart[0]), float(cart[1])) / np.linalg.norm(cart.astype(float)))
    tol = np.max(tol) * (8 + lon) + 4e-15 * np.linalg.norm(vec) * (4 + lon + degree)
    return full, tol * (100 if colat < 1e-6 else 1)
