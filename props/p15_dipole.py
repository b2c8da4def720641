"""P15 dipole coordinates"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from eoxmagmod import dipole_coords as dc
from eoxmagmod.dipole import rotate_vectors_from_dipole
from vh import gen, ref
from vh.shgen import KINDS, RANGE, coef_spec, make_coef, ncoef
from vh.core import check, require, require_shape, require_close, require_same

POLES = st.one_of(st.tuples(gen.finite(75, 90), gen.finite(-180, 180)), st.tuples(gen.latitudes(), gen.longitudes()),
                  st.sampled_from([(90.0, 0.0), (-90.0, 0.0), (0.0, 0.0), (80.08, -72.22), (80.0, 180.0), (90.0, 90.0), (0.0, 90.0)]))


def frame(lat, lon):
    """axes of the dipole system: z to the pole, x on its meridian, y eastward"""
    s, c = ref.sincosd(lat)
    sl, cl = ref.sincosd(lon)
    z = np.array([c * cl, c * sl, s])
    y = np.array([-sl, cl, ref.LD(0)])
    return np.array([np.cross(y, z), y, z])


@st.composite
def point_cases(draw):
    kind = draw(st.integers(0, 2))
    pole = draw(POLES)
    pts = draw(st.lists(gen.positions(kind, **RANGE), min_size=1, max_size=4))
    if draw(st.integers(0, 4)) == 0:        # at or near the dipole pole and the antipode
        sign = draw(st.sampled_from([1, -1]))
        pt = [sign * pole[0] + draw(st.sampled_from([0, 0, 1e-12, 1e-6])), pole[1] + (0 if sign > 0 else 180), 7000.0]
        pt[0] = min(max(pt[0], -90.0), 90.0)
        pts[0] = pt if kind == 1 else [float(v) for v in ref.convert(np.array(pt), 1, kind)]
    return {"kind": kind, "pole": pole, "points": pts, "shape": draw(st.sampled_from(["list", "1", "2"]))}


@check(point_cases(), quick=8000, thorough=400000,
       rule="poles and positions in the three systems, the poles and antipodes included; non-trivial when the pole is not the geographic one")
def dipole_coordinates(case, ctx):
    lat, lon = case["pole"]
    if abs(lat) != 90:
        ctx.nontrivial(["geodetic", "spherical", "Cartesian"][case["kind"]])
    axes = frame(lat, lon)
    matrix = dc.get_dipole_rotation_matrix(lat, lon)
    require_shape(matrix, (3, 3))
    tol_angle = 4e-16 * (1 + abs(np.radians(lon)))
    require_close(matrix, axes.T.astype(float), 2 * tol_angle, "wrong rotation matrix", pole=case["pole"])
    require_close(matrix @ matrix.T, np.eye(3), 1e-15, "the matrix is not orthonormal", pole=case["pole"])
    pts = case["points"]
    arr = np.array(pts)
    args = {"list": pts[0], "1": arr, "2": arr[None]}[case["shape"]]
    kw = {} if case["kind"] == 1 else {"coord_type_in": KINDS[case["kind"]]}
    res = em.convert_to_dipole(args, lat, lon, **kw)
    require_shape(res, np.shape(args))
    carts = []
    for p, r in zip(pts[:1] if case["shape"] == "list" else pts, np.reshape(res, (-1, 3))):
        cart = ref.to_cart(np.array(p), case["kind"])
        rad = np.sqrt((cart ** 2).sum())
        exp = axes @ cart
        got = ref.sph2cart(r)
        carts.append((cart, got))
        rel = 1e-15 + 2 * tol_angle + 4e-16 * (abs(np.radians(float(p[1]))) if case["kind"] < 2 else 0)
        require_close(got.astype(float), exp.astype(float), float(rad * 2 * rel), "wrong dipole coordinates", pole=case["pole"], point=p, got=r, case=case)
        require_close(r[2], float(rad), float(2e-15 * rad), "the radius is not preserved", pole=case["pole"], point=p)
        require(-90 <= r[0] <= 90 and -180 <= r[1] <= 180, "angle out of range", got=r)
    for (a, b), (c, d) in zip(carts[:-1], carts[1:]):
        size = float(np.abs(a).max() + np.abs(c).max())
        require_close(float(np.linalg.norm((b - d).astype(float))), float(np.linalg.norm((a - c).astype(float))), 2e-14 * size, "distances are not preserved", case=case)
    # the pole itself
    one = em.convert_to_dipole([lat, lon, 1.0], lat, lon)
    require_close(one[[0, 2]], [90.0, 1.0], [2e-6, 1e-15], "the pole is not the pole of the dipole coordinates", pole=case["pole"])


@st.composite
def vector_cases(draw):
    case = draw(point_cases())
    case["kout"] = draw(st.integers(0, 2))
    case["vectors"] = draw(st.lists(st.lists(st.one_of(gen.finite(-1e5, 1e5), st.sampled_from([0.0, 1.0, -1.0])), min_size=3, max_size=3), min_size=4, max_size=4))
    return case


@check(vector_cases(), quick=8000, thorough=400000,
       rule="vectors in the local dipole frames to Cartesian, spherical and geodetic frames; non-trivial when the pole is not the geographic one and the vector is not zero")
def vector_rotation(case, ctx):
    lat, lon = case["pole"]
    axes, kin, kout = frame(lat, lon), case["kind"], case["kout"]
    pts = np.array(case["points"])
    vec = np.array(case["vectors"])[:len(pts)]
    if case["shape"] == "list":
        pts, vec = pts[0], vec[0]
    elif case["shape"] == "2":
        pts, vec = pts[None], vec[None]
    if abs(lat) != 90 and np.any(vec):
        ctx.nontrivial(["geodetic", "spherical", "Cartesian"][kout])
    dip = em.convert_to_dipole(pts, lat, lon, KINDS[kin])
    out = em.convert(pts, KINDS[kin], KINDS[kout])
    if kout == 2:
        res = em.vrot_from_dipole(vec, lat, lon, dip[..., 0], dip[..., 1])
    else:
        res = em.vrot_from_dipole(vec, lat, lon, dip[..., 0], dip[..., 1], out[..., 0], out[..., 1], KINDS[kout])
    require_shape(res, vec.shape)
    again = rotate_vectors_from_dipole(vec, lat, lon, dip, pts, KINDS[kin], KINDS[kout])
    size = np.abs(vec).sum(axis=-1)
    require_close(again, res, 1e-14 * size[..., None], "rotate_vectors_from_dipole differs", case=case)
    for v, d, o, r in zip(vec.reshape(-1, 3), dip.reshape(-1, 3), out.reshape(-1, 3), res.reshape(-1, 3)):
        cart = axes.T @ (ref.local_frame(d[0], d[1]).T @ v)
        exp = ref.frame(o, kout) @ cart
        norm = float(np.sqrt((cart ** 2).sum()))
        require_close(r, exp.astype(float), 4e-15 * norm * (1 + abs(np.radians(lon)) / 3) + 1e-300, "wrong rotation of the vector", case=case, vector=v)
        require_close(np.sqrt((r.astype(ref.LD) ** 2).sum()).astype(float), norm, 4e-15 * norm, "the length is not preserved", case=case)


@st.composite
def field_cases(draw):
    kin = draw(st.integers(0, 2))
    return {"pole": draw(POLES), "coef": draw(coef_spec(st.integers(0, 8))), "kin": kin, "kout": draw(st.integers(0, 2)),
            "points": draw(st.lists(gen.positions(kin, **RANGE), min_size=1, max_size=3)), "internal": draw(st.booleans()), "mode": draw(st.integers(1, 3)),
            "degree": draw(st.one_of(st.just(-1), st.integers(0, 8))), "scale": draw(st.sampled_from([None, -1.0, [1.0, -2.0, 0.5]])),
            "shape": draw(st.sampled_from(["list", "1", "2"])), "nested": draw(st.integers(0, 3)) == 0}


@check(field_cases(), quick=5000, thorough=250000,
       rule="coefficients up to degree 8 in the dipole frame, poles, positions, modes, degrees and scales; non-trivial when the pole is not the geographic one")
def field_in_dipole_frame(case, ctx):
    lat, lon = case["pole"]
    axes, kin, kout = frame(lat, lon), case["kin"], case["kout"]
    coef, degree = make_coef(case["coef"]), case["coef"]["degree"]
    if abs(lat) != 90:
        ctx.nontrivial("internal" if case["internal"] else "external")
    used = degree if case["degree"] < 0 else min(degree, case["degree"])
    kw = {"is_internal": case["internal"], "degree": -1 if case["degree"] < 0 else used}
    factor, pfac = np.ones(3), 1.0
    if case["scale"] is not None:
        kw.update(scale_gradient=case["scale"], scale_potential=3.0)
        factor, pfac = factor * case["scale"], 3.0
    pts = np.array(case["points"])
    arg = {"list": case["points"][0], "1": pts, "2": pts[None]}[case["shape"]]
    arg = np.array(arg)
    before = coef.copy(), arg.copy()
    res = em.sheval_dipole(arg.tolist() if case["nested"] else arg, coef, lat, lon, KINDS[kin], KINDS[kout], case["mode"], **kw)
    require_same(coef, before[0], "coefficients modified")
    require_same(arg, before[1], "positions modified")
    pot, grd = {1: (res, None), 2: (None, res), 3: res}[case["mode"]]
    if pot is not None:
        require_shape(pot, arg.shape[:-1], "potential")
    if grd is not None:
        require_shape(grd, arg.shape, "gradient")
    for i, p in enumerate(arg.reshape(-1, 3)):
        cart = ref.to_cart(p, kin)
        sph = ref.cart2sph(axes @ cart)
        v, g, vscale, gscale = ref.synth(coef[:ncoef(used)], used, sph, case["internal"])
        vec = axes.T @ np.einsum("i,ij->j", g, ref.local_frame(sph[0], sph[1]))
        vec = ref.frame(ref.convert(p, kin, kout), kout) @ vec
        n = used + 1.0
        rel = 2e-15 * n * (3 + abs(np.radians(lon)) + (abs(np.radians(float(p[1]))) if kin < 2 else 0))
        colat = np.radians(max(90.0 - abs(float(sph[0])), 1e-8))
        vtol, gtol = rel * vscale + 1e-280, rel * gscale + 1e-280
        if colat < 2e-10:
            gtol += 4e-10 * gscale * n
        if pot is not None:
            require_close(np.ravel(pot)[i], float(v) * pfac, vtol * pfac, "wrong potential", case=case, point=p)
        if grd is not None:
            require_close(grd.reshape(-1, 3)[i], vec.astype(float) * factor, gtol * np.abs(factor), "wrong gradient", case=case, point=p)
    # the dipole aligned with the axis of the frame
    if grd is not None and degree >= 1:
        g10 = float(coef[1, 0])
        one = em.sheval_dipole(arg, np.array([[0, 0], [g10, 0], [0, 0]]), lat, lon, KINDS[kin], KINDS[kout], em.GRADIENT, is_internal=case["internal"])
        c = np.radians(lat), np.radians(lon)
        geo = np.array([[0, 0], [g10 * np.sin(c[0]), 0], [g10 * np.cos(c[0]) * np.cos(c[1]), g10 * np.cos(c[0]) * np.sin(c[1])]])
        two = em.sheval(arg, geo, KINDS[kin], KINDS[kout], em.GRADIENT, is_internal=case["internal"])
        rad = em.convert(arg, KINDS[kin], KINDS[1])[..., 2]
        size = abs(g10) * (2 * (6371.2 / rad) ** 3 if case["internal"] else np.ones_like(rad))
        require_close(one, two, (1e-14 * (1 + abs(c[1]))) * size[..., None] + 1e-280, "differs from the tilted dipole", case=case)
