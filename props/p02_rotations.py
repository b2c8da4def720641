"""P02 vector rotations, norm, inclination and declination"""
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
from vh import gen, ref
from vh.core import check, require, require_shape, require_close, require_same, angle_diff

KINDS = [em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL, em.GEOCENTRIC_CARTESIAN]
NAMES = ["geodetic", "spherical", "cartesian"]

_UNIT = st.one_of(gen.finite(-1, 1).filter(lambda x: x == 0 or abs(x) > 1e-9), st.sampled_from([0.0, 1.0, -1.0, 0.0]))
_EXP = st.one_of(st.integers(-3, 6), st.integers(-90, 90))


@st.composite
def _vectors(draw):
    scale = 10.0 ** draw(_EXP)
    return [draw(_UNIT) * scale for _ in range(3)]


VECTORS = _vectors()
ITEMS = st.tuples(VECTORS, gen.positions(0))


@st.composite
def cases(draw):
    return {"in": draw(st.integers(0, 2)), "out": draw(st.integers(0, 2)),
            "none": draw(st.booleans()), "items": draw(st.lists(ITEMS, min_size=1, max_size=5))}


def norm_ref(v):
    v = ref.ld(v)
    return np.sqrt(np.sum(v * v, axis=-1))


@check(cases(), quick=12000, thorough=300000,
       rule="1-5 vectors at positions rotated between a pair of frames; non-trivial when the frames differ and a vector is not zero")
def rotation_is_change_of_basis(case, ctx):
    kin, kout = case["in"], case["out"]
    vec = np.array([v for v, _ in case["items"]])
    geod = np.array([p for _, p in case["items"]])
    pos = [ref.convert(geod, 0, k).astype(float) for k in range(3)]
    backup = [vec.copy()] + [p.copy() for p in pos]
    res = em.vrotate(vec, pos[kin], pos[kout], KINDS[kin], KINDS[kout])
    require_shape(res, vec.shape)
    for a, b in zip([vec] + pos, backup):
        require_same(a, b, "vrotate modified its input")
    if kin == kout:
        require_same(res, vec, "rotation to the same frame is not an identity")
        return
    if np.any(vec):
        ctx.nontrivial(NAMES[kin] + "->" + NAMES[kout])
    size = norm_ref(vec).astype(float)
    tol = (4e-15 * (1 + np.abs(geod[:, 1]) / 90.0) * size)[:, None]
    cart = ref.matvec(np.swapaxes(ref.frame(pos[kin], kin), -1, -2), vec)
    expected = ref.matvec(ref.frame(pos[kout], kout), cart)
    require_close(res, expected.astype(float), tol, "%s -> %s rotation" % (NAMES[kin], NAMES[kout]),
                  vectors=vec.tolist(), positions=geod.tolist())
    # length, inverse and composition
    require_close(em.vnorm(res), size, 3e-15 * size, "rotation changed the length", vectors=vec.tolist())
    back = em.vrotate(res, pos[kout], pos[kin], KINDS[kout], KINDS[kin])
    require_close(back, vec, tol, "there and back is a different vector", positions=geod.tolist())
    kmid = 3 - kin - kout
    mid = em.vrotate(vec, pos[kin], pos[kmid], KINDS[kin], KINDS[kmid])
    mid = em.vrotate(mid, pos[kmid], pos[kout], KINDS[kmid], KINDS[kout])
    require_close(mid, res, 2 * tol, "rotation by the third frame differs", positions=geod.tolist(), vectors=vec.tolist())
    # positions not needed by the rotation may be omitted
    if case["none"]:
        cin = None if kin == 2 else pos[kin]
        cout = None if kout == 2 else pos[kout]
        require_close(em.vrotate(vec, cin, cout, KINDS[kin], KINDS[kout]), res, tol, "rotation depends on the Cartesian coordinates")
    # ... or replaced by the others
    if 2 in (kin, kout):
        same = pos[kout if kin == 2 else kin]
        require_close(em.vrotate(vec, same, same, KINDS[kin], KINDS[kout]), res, tol, "rotation depends on the Cartesian coordinates")
    # pairwise entry points
    if kin == 2:
        other = em.vrot_cart2sph(vec, pos[kout][:, 0], pos[kout][:, 1])
    elif kout == 2:
        other = em.vrot_sph2cart(vec, pos[kin][:, 0], pos[kin][:, 1])
    else:
        other = em.vrot_sph2geod(vec, pos[kout][:, 0] - pos[kin][:, 0])
    require_close(other, res, tol, "vrotate and the elementary rotation differ")


ANGLES = st.one_of(gen.finite(-360, 360), st.sampled_from([0.0, 90.0, -90.0, 180.0, -180.0, 45.0, 0.2]))


@st.composite
def elementary_cases(draw):
    return {"u": draw(VECTORS), "v": draw(VECTORS), "lat": draw(ANGLES), "lon": draw(gen.longitudes()),
            "a": draw(gen.finite(-5, 5))}


@check(elementary_cases(), quick=6000, thorough=150000,
       rule="pairs of vectors and rotation angles; non-trivial when both vectors are non-zero")
def elementary_rotations(case, ctx):
    """orthonormality, linearity and inverses of the elementary rotations for any angles"""
    u, v = np.array(case["u"]), np.array(case["v"])
    lat, lon, a = case["lat"], case["lon"], case["a"]
    if np.any(u) and np.any(v):
        ctx.nontrivial()
    nu, nv = float(norm_ref(u)), float(norm_ref(v))
    sz = 6e-15 * (1 + abs(lon) / 90 + abs(lat) / 90)
    fr = ref.local_frame(lat, lon)
    s, c = ref.sincosd(lat)
    for name, func, mat in (
            ("vrot_sph2cart", lambda x: em.vrot_sph2cart(x, lat, lon), np.swapaxes(fr, -1, -2)),
            ("vrot_cart2sph", lambda x: em.vrot_cart2sph(x, lat, lon), fr),
            ("vrot_sph2geod", lambda x: em.vrot_sph2geod(x, lat),
             np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]], dtype=ref.LD))):
        ru, rv = func(u), func(v)
        require_shape(ru, (3,), name)
        require_close(ru, ref.matvec(mat, u).astype(float), sz * nu, name + ": wrong rotation", case=case)
        require_close(rv, ref.matvec(mat, v).astype(float), sz * nv, name + ": wrong rotation", case=case)
        w = a * u + v
        require_close(func(w), a * ru + rv, 4 * sz * (abs(a) * nu + nv), name + ": not linear", case=case)
    require_close(em.vrot_cart2sph(em.vrot_sph2cart(u, lat, lon), lat, lon), u, 2 * sz * nu, "sph2cart/cart2sph not inverse", case=case)
    require_close(em.vrot_sph2geod(em.vrot_sph2geod(u, lat), -lat), u, 2 * sz * nu, "sph2geod not inverse", case=case)


SHAPED = st.lists(VECTORS, min_size=1, max_size=8)


@check(SHAPED, quick=6000, thorough=100000, rule="1-8 vectors; non-trivial when some is not zero")
def norm_inclination_declination(case, ctx):
    vec = np.array(case)
    if np.any(vec):
        ctx.nontrivial()
    size = norm_ref(vec).astype(float)
    norm = em.vnorm(vec)
    require_shape(norm, vec.shape[:-1])
    require_close(norm, size, 4e-15 * size, "vnorm", vectors=case)
    require_close(em.vnorm(case[0]), size[0], 4e-15 * size[0], "vnorm of a list", vectors=case)
    inc, dec, norm = em.vincdecnorm(vec)
    north, east, up = (ref.ld(vec)[:, i] for i in range(3))
    hor = np.hypot(north, east)
    require_close(norm, size, 4e-15 * size, "intensity", vectors=case)
    require_close(inc, (np.arctan2(-up, hor) / ref.DEG).astype(float), 1e-12, "inclination", vectors=case)
    require_close(angle_diff(dec, (np.arctan2(east, north) / ref.DEG).astype(float)), 0 * dec, 1e-12, "declination", vectors=case)
    require(bool(np.all(np.abs(dec) <= 180) and np.all(np.abs(inc) <= 90)), "angles out of range", vectors=case)
    inc1, dec1, norm1 = em.vincdecnorm(vec[0])
    require_same([inc1, dec1, norm1], [inc[0], dec[0], norm[0]], "single vector differs", vectors=case)
    if len(vec) % 2 == 0:
        cube = vec.reshape((2, -1, 3))
        require_same(em.vnorm(cube), em.vnorm(vec).reshape((2, -1)), "vnorm of a 3D array", vectors=case)
        require_same(em.vnorm(cube[:, None, None]), em.vnorm(vec).reshape((2, 1, 1, -1)), "vnorm of a 5D array", vectors=case)
        require_same(em.vincdecnorm(cube)[0], inc.reshape((2, -1)), "vincdecnorm of a 3D array", vectors=case)
