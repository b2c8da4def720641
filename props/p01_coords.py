"""P01 coordinate conversions"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.core import check, require, require_shape, require_close, require_same, angle_diff, fail

KINDS = [em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN]
NAMES = ["geodetic", "spherical", "cartesian"]


@st.composite
def cases(draw):
    kin = draw(st.integers(0, 2))
    kout = draw(st.integers(0, 2))
    far = draw(st.booleans())
    limits = dict(rmin=3000.0, rmax=1e6, hmin=-2500.0, hmax=1e6) if far else {}
    pts = draw(st.lists(gen.positions(kin, **limits), min_size=1, max_size=6))
    return {"in": kin, "out": kout, "points": pts}


def as_cart(p, kind):
    return np.asarray(ref.to_cart(p, kind), dtype=ref.LD)


def cart_distance(p, kp, q, kq):
    return np.sqrt(np.sum((as_cart(p, kp) - as_cart(q, kq)) ** 2, axis=-1)).astype(float)


def check_ranges(res, kind, what):
    if kind != 2:
        require(np.all(np.abs(res[..., 0]) <= 90.0 * (1 + 1e-15)), what + ": latitude out of range", result=res)
    if kind == 1:
        require(np.all(res[..., 2] >= 0), what + ": negative radius", result=res)


@check(cases(), quick=16000, thorough=400000,
       rule="1-6 positions converted between a pair of systems; non-trivial when the two systems differ")
def exact_geometry(case, ctx):
    """the converted position is the same physical point, directly and by a detour"""
    kin, kout = case["in"], case["out"]
    pts = np.array(case["points"])
    backup = pts.copy()
    res = em.convert(pts, KINDS[kin], KINDS[kout])
    require_shape(res, pts.shape)
    require_same(pts, backup, "convert modified its input")
    if kin == kout:
        require_same(res, pts, "conversion to the same system is not an identity")
        return
    ctx.nontrivial(NAMES[kin] + "->" + NAMES[kout])
    what = "%s -> %s" % (NAMES[kin], NAMES[kout])
    require(bool(np.all(np.isfinite(res))), what + ": not finite", input=pts.tolist(), result=res.tolist())
    check_ranges(res, kout, what)
    size = np.sqrt(np.sum(as_cart(pts, kin) ** 2, axis=-1)).astype(float)
    tol = 1e-7 + 4e-13 * size
    dist = cart_distance(pts, kin, res, kout)
    require_close(dist, np.zeros(len(pts)), tol, what + ": different point", input=pts.tolist(), result=res.tolist())
    # longitude as defined by both systems
    if kin != 2 and kout != 2:
        require_close(angle_diff(res[:, 1], pts[:, 1]), 0.0 * res[:, 1], 1e-13 + 4e-16 * np.abs(pts[:, 1]),
                      what + ": longitude changed", input=pts.tolist(), result=res.tolist())
    if kin == 2:
        require_close(res[:, 1], np.degrees(np.arctan2(pts[:, 1], pts[:, 0])), 1e-12,
                      what + ": longitude", input=pts.tolist())
    # compared with the reference conversion in the output coordinates
    expected = ref.convert(pts, kin, kout).astype(float)
    if kout == 2:
        require_close(res, expected, (1e-7 + 1e-13 * size)[:, None], what + ": wrong Cartesian coordinates", input=pts.tolist())
    else:
        require_close(res[:, 2], expected[:, 2], tol, what + ": wrong radius/height", input=pts.tolist())
        require_close(res[:, 0], expected[:, 0], 1e-9, what + ": wrong latitude", input=pts.tolist())


@check(cases(), quick=8000, thorough=200000,
       rule="1-6 positions converted there and back, and by the third system; non-trivial when the systems differ")
def round_trip(case, ctx):
    kin, kout = case["in"], case["out"]
    pts = np.array(case["points"])
    there = em.convert(pts, KINDS[kin], KINDS[kout])
    back = em.convert(there, KINDS[kout], KINDS[kin])
    require_shape(back, pts.shape)
    size = np.sqrt(np.sum(as_cart(pts, kin) ** 2, axis=-1)).astype(float)
    if kin != kout:
        ctx.nontrivial(NAMES[kin] + "->" + NAMES[kout])
    require_close(cart_distance(pts, kin, back, kin), np.zeros(len(pts)), 1e-9 + 2e-13 * size,
                  "there and back is a different point", input=pts.tolist(), there=there.tolist(), back=back.tolist())
    if kin == 2:
        require_close(back, pts, (1e-9 + 2e-13 * size)[:, None], "Cartesian round trip", input=pts.tolist())
    else:
        require_close(back[:, 2], pts[:, 2], 1e-9 + 2e-13 * size, "radius/height round trip", input=pts.tolist())
        require_close(back[:, 0], pts[:, 0], 1e-10, "latitude round trip", input=pts.tolist())
        coslat = np.cos(np.radians(pts[:, 0]))
        require_close(angle_diff(back[:, 1], pts[:, 1]) * coslat, 0 * coslat, 1e-12 + 1e-15 * np.abs(pts[:, 1]),
                      "longitude round trip", input=pts.tolist())
    # by the third system
    for kmid in range(3):
        mid = em.convert(em.convert(pts, KINDS[kin], KINDS[kmid]), KINDS[kmid], KINDS[kout])
        require_close(cart_distance(mid, kout, there, kout), np.zeros(len(pts)), 2e-9 + 4e-13 * size,
                      "result depends on the path by " + NAMES[kmid], input=pts.tolist(), via=mid.tolist(), direct=there.tolist())


@st.composite
def default_cases(draw):
    return {"point": draw(gen.positions(0)), "kin": draw(st.integers(0, 2)), "kout": draw(st.integers(0, 2))}


@check(default_cases(), quick=800, thorough=8000, rule="scalar position given as a list; every case is non-trivial")
def scalar_position(case, ctx):
    ctx.nontrivial()
    pos = [float(v) for v in ref.convert(case["point"], 0, case["kin"])]
    one = em.convert(pos, KINDS[case["kin"]], KINDS[case["kout"]])
    many = em.convert(np.array([pos]), KINDS[case["kin"]], KINDS[case["kout"]])
    require_shape(one, (3,))
    require_same(one, many[0], "scalar and array conversion differ", point=pos)
