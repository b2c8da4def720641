"""P26 the apex coordinate subroutines of the qdipole library"""
import hashlib
import json
import math
import os
import numpy as np
from hypothesis import strategies as st
import eoxmagmod.data as data
from vh import gen, apex, qdlib
from vh.core import HarnessError, check, require, require_close, require_same

FILES = [data.APEX_2015, data.APEX_2020, data.APEX_2025, data.APEX_2030]
SCRATCH = os.environ.get("VH_SCRATCH", "/tmp")
MISSING = -9999.0


def f32(value):
    return float(np.float32(value))


def synthetic(spec):
    """path and expansion of a generated coefficient file (a perturbed rotation and its inverse)"""
    r = gen.rng(spec["seed"])
    nmax, mmax, lmax = spec["nmax"], min(spec["mmax"], spec["nmax"]), spec["lmax"]
    k = apex.nterm(nmax, mmax)
    epochs = np.array(spec["epochs"])
    both = []
    for _ in range(2):
        coeff = r.normal(size=(len(epochs), lmax + 1, k, 3)) * 0.02
        coeff[:, 0, 1, 2] += 0.8
        coeff[:, 0, nmax + 1, 0] += 1.15
        coeff[:, 0, nmax + 2, 1] += 1.15
        both.append(coeff)
    exp = apex.Expansion(nmax, mmax, lmax, epochs, *both)
    name = "lib" + hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16] + ".txt"
    path = os.path.join(SCRATCH, name)
    if not os.path.exists(path):
        apex.dump(path, exp)
    return path, exp


@st.composite
def sources(draw):
    if draw(st.integers(0, 2)):
        return draw(st.integers(0, len(FILES) - 1))
    epochs = [draw(st.sampled_from([1900.0, 1980.0, 1995.5, 2010.0]))]
    for step in draw(st.lists(st.sampled_from([1.0, 5.0, 5.0, 2.5, 10.0]), max_size=3)):
        epochs.append(epochs[-1] + step)
    nmax = draw(st.integers(1, 5))
    return {"seed": draw(gen.SEED), "nmax": nmax, "mmax": draw(st.integers(1, nmax)), "lmax": draw(st.integers(0, 3)), "epochs": epochs}


def open_source(source):
    if isinstance(source, dict):
        return synthetic(source)
    path = FILES[source]
    return path, apex.load(path)


HEIGHTS = st.one_of(st.sampled_from([0.0, 110.0, 450.0, 450.0, 1000.0, 20000.0, -999.0]), gen.finite(-50, 3000).map(f32), gen.finite(-50, 60000).map(f32))
LATS = gen.latitudes().map(f32)
LONS = gen.longitudes(wrap=False).map(f32)
EPOCHS = st.one_of(gen.finite(1975, 2035).map(f32), st.sampled_from([1980.0, 1985.0, 2000.0, 2015.0, 2020.0, 2025.0, 2030.0, 1900.0, 2100.0, -999.0]))


# number of epochs, degree, order, order in height, number of terms
BAD_HEADERS = ["", "1 2 2 0", "0 2 2 0 9", "1 1 2 0 9", "1 2 2 0 8", "1 2 2 1 17", "2 2 2 0 9", "1 2 2 -1 9", "x 2 2 0 9", "1 0 0 0 1", "1 3 0 0 4",
               "2000000000 2 2 0 9", "1 50000 40000 0 2147483647", "1 2 2 200000000 2000000000", "1 2 2 2147483647 2147483647"]


@st.composite
def operations(draw, nsource, heights):
    kind = draw(st.sampled_from(["load", "g2q", "g2q", "all", "all", "all", "q2g", "q2g", "q2g", "missing", "bad", "make"]))
    if kind == "load":
        return [kind, draw(st.integers(0, nsource - 1)), draw(EPOCHS)]
    if kind == "missing":
        return [kind]
    if kind == "bad":
        return [kind, draw(st.sampled_from(BAD_HEADERS))]
    if kind == "make":
        return [kind, draw(st.sampled_from([[2000.0], [1995.0, 2000.0, 2012.5]])), draw(st.integers(0, 1)), 1, draw(st.integers(1, 2)), draw(st.booleans())]
    pos = [draw(LATS), draw(LONS), draw(heights)]
    if kind == "g2q":
        return [kind] + pos + [draw(st.booleans())]
    if kind == "all":
        return [kind] + pos + [draw(st.sampled_from([0.0, 110.0, 110.0, 300.0, 90.5])), draw(st.booleans()) or draw(st.booleans())]
    return [kind] + pos + [draw(st.sampled_from([-1.0, 1e-2, 1e-3, 1e-4, -1.0, 1e-4]))]


@st.composite
def histories(draw):
    pool = draw(st.lists(sources(), min_size=1, max_size=2))
    ops = [["load", draw(st.integers(0, len(pool) - 1)), draw(EPOCHS)]]
    heights = st.sampled_from(draw(st.lists(HEIGHTS, min_size=1, max_size=3)))
    for _ in range(draw(st.integers(1, 8))):
        op = draw(operations(len(pool), heights))
        prev = [o for o in ops if o[0] in ("g2q", "all", "q2g")]
        if prev and op[0] in ("g2q", "all", "q2g") and draw(st.integers(0, 3)) == 0:
            op[1:4] = draw(st.sampled_from(prev))[1:4]
        ops.append(op)
    return {"sources": pool, "ops": ops}


def sphere(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def degrees_between(a, b):
    return math.degrees(2 * math.asin(min(1.0, np.linalg.norm(a - b) / 2)))


def modified_apex(qlat, qgrads, alt, hr):
    """modified apex latitude (None where undefined), d1 and d2 (None where undefined), Richmond (1995)"""
    ratio = (apex.RE + hr) / (apex.RE + alt)
    cosq, sinq = math.cos(math.radians(qlat)), math.sin(math.radians(qlat))
    cosm = cosq * math.sqrt(ratio)
    mlat = math.copysign(math.degrees(math.acos(cosm)), qlat) if cosm <= 1 else None
    denom = 4 / ratio - 3 * cosq * cosq
    if denom <= 0:
        return cosm, mlat, denom, None, None
    root = math.sqrt(denom)
    d1 = ratio ** 1.5 * qgrads[1]
    d2 = -2 * ratio * sinq * qgrads[0] / root
    d2[2] -= ratio * cosq / root
    return cosm, mlat, denom, d1, d2


def check_g2q(res, expected, vec, scale, vectors, ctx, **info):
    norm, grad = scale
    tol = 1e-6 * (1 + grad) / norm
    got = sphere(res["qlat"], res["qlon"])
    require(np.linalg.norm(got - vec) <= tol, "wrong quasi-dipole latitude and longitude", got=(res["qlat"], res["qlon"]), expected=expected[:2],
            difference=np.linalg.norm(got - vec), tolerance=tol, **info)
    require(abs(res["qlat"]) <= 90.0001 and abs(res["qlon"]) <= 180.0001, "angle out of range", got=(res["qlat"], res["qlon"]), **info)
    if vectors:
        # the direction of the quasi-dipole east is undefined at the pole
        tolb = 2e-6 * (1 + grad) ** 2 / norm
        f1, f2 = res["f1"], res["f2"]
        require_close([f1[0], f1[1], f2[0], f2[1]], expected[2:6], tolb, "wrong quasi-dipole base vectors", **info)
        require_close(res["f"], f1[0] * f2[1] - f1[1] * f2[0], 1e-6 * (abs(f1[0] * f2[1]) + abs(f1[1] * f2[0])), "F is not |F1 x F2|", **info)
    else:
        for name in ("f1", "f2", "f"):
            require(np.all(np.asarray(res[name]) == MISSING), "base vectors which were not requested are not marked missing", name=name, value=res[name], **info)


def check_all(res, expected, grads, scale, alt, hr, vectors, ctx, **info):
    norm, grad = scale
    err = 2e-6 * (1 + grad) / norm          # of the quasi-dipole latitude in radians
    require(res["mlon"] == res["qlon"], "modified apex longitude differs from the quasi-dipole longitude", got=res["mlon"], expected=res["qlon"], **info)
    cosm, mlat, denom, d1, d2 = modified_apex(expected[0], grads, alt, hr)
    if cosm <= 1 - 2 * err:
        ctx.label("modified apex latitude")
        if abs(expected[0]) > math.degrees(err):
            require_close(res["mlat"], mlat, math.degrees(2 * err / math.sqrt(1 - cosm * cosm)) + 1e-5, "wrong modified apex latitude", reference_height=hr, **info)
    elif cosm > 1 + 2 * err:
        require(res["mlat"] == MISSING, "modified apex latitude below the reference height", got=res["mlat"], **info)
    names = ("d1", "d2", "d3", "d", "e1", "e2", "e3")
    if not vectors:
        for name in names:
            require(np.all(np.asarray(res[name]) == MISSING), "base vectors which were not requested are not marked missing", name=name, value=res[name], **info)
        return
    if denom < 1e-3:
        if denom < -1e-3:
            for name in names:
                require(np.all(np.asarray(res[name]) == MISSING), "undefined base vectors are not marked missing", name=name, value=res[name], **info)
        return
    size1, size2 = 1 + np.linalg.norm(d1), 1 + np.linalg.norm(d2)
    rel = 4e-6 * (1 + grad) / norm * (1 + 1 / denom)
    require_close(res["d1"], d1, rel * size1 * (1 + grad), "wrong d1", reference_height=hr, **info)
    require_close(res["d2"], d2, rel * size2 * (1 + grad), "wrong d2", reference_height=hr, **info)
    r1, r2, r3 = (np.asarray(res[n]) for n in ("d1", "d2", "d3"))
    cross = np.cross(r1, r2)
    length = np.linalg.norm(cross)
    eps = 2e-6 * np.linalg.norm(r1) * np.linalg.norm(r2)
    require_close(res["e3"], cross, eps, "e3 is not d1 x d2", **info)
    require_close(res["d"], length, 3 * eps, "D is not |d1 x d2|", **info)
    cond = eps / length
    if cond > 1e-2:
        return
    ctx.label("base vectors")
    require_close(r3, cross / length ** 2, 5 * cond / length, "d3 is not d1 x d2 / D^2", **info)
    es = [np.asarray(res[n]) for n in ("e1", "e2", "e3")]
    for i, e in enumerate(es):
        for j, d in enumerate((r1, r2, r3)):
            require_close(e @ d, float(i == j), (10 * cond + 4e-6) * (1 + np.linalg.norm(e) * np.linalg.norm(d)), "d and e are not reciprocal base vectors", pair=(i + 1, j + 1), **info)


@check(histories(), quick=3000, thorough=200000,
       rule="sequences of loading of files and epochs, failed loading, conversions with and without the base vectors, inversions with and without refinement at repeating heights and positions; non-trivial for more than two operations")
def history(case, ctx):
    """every conversion equals the expansion loaded last, whatever was called before"""
    ops = case["ops"]
    if len(ops) > 2:
        ctx.nontrivial()
    exp = epoch = path = None
    for number, op in enumerate(ops):
        info = {"operation": number, "op": op, "history": case}
        if op[0] == "load":
            path, exp = open_source(case["sources"][op[1]])
            epoch = op[2]
            qdlib.load(path, epoch)
            continue
        if op[0] == "missing":
            qdlib.load(os.path.join(SCRATCH, "no such file"), 2000.0)
            require(qdlib.error() != 0, "loading of a missing file is not reported", **info)
            qdlib.load(path, epoch)
            require(qdlib.error() == 0, "loading fails", **info)
            continue
        if op[0] == "bad":
            # the reason of the failure differs: a size which is invalid or too large, or missing values
            bad = os.path.join(SCRATCH, "bad%d.txt" % BAD_HEADERS.index(op[1]))
            with open(bad, "w") as file:
                file.write(op[1] + "\n2000.0 " + "0.5 " * 54 + "\n")
            ctx.label("malformed file")
            qdlib.load(bad, 2000.0)
            require(qdlib.error() != 0, "loading of a malformed file is not reported", **info)
            qdlib.load(path, epoch)
            require(qdlib.error() == 0, "loading fails", **info)
            continue
        if op[0] == "make":
            made = os.path.join(SCRATCH, "made.txt")
            if len(made) > 128:
                raise HarnessError("the scratch directory has a too long name")
            grid = np.zeros(31, dtype="float32")
            grid[:len(op[1])] = op[1]
            qdlib.call("makeapxsh", (made, 128), grid, len(op[1]), op[2], op[3], op[4])
            ctx.label("generation of a file")
            if op[5] or path == made:
                path, exp, epoch = made, apex.load.__wrapped__(made), f32(2001.0)
            qdlib.load(path, epoch)
            continue
        lat, lon, alt = op[1:4]
        if op[0] == "q2g":
            check_inverse(exp, epoch, lat, lon, alt, op[4], isinstance(case["sources"], dict), ctx, **info)
            continue
        expected, vec, (qe, qn, dist), grads = apex.evaluate_geodetic(exp, epoch, lat, lon, alt)
        scale = (max(min(dist, 1.0), 1e-3), max(1.0, np.linalg.norm(qe), np.linalg.norm(qn)))
        if dist < 0.02:
            scale = (scale[0] * 0.1, scale[1])
        vectors = bool(op[-1])
        if op[0] == "g2q":
            check_g2q(qdlib.g2q(lat, lon, alt, vectors), expected, vec, scale, vectors, ctx, **info)
            ctx.label("g2q")
        else:
            hr = op[4]
            res = qdlib.g2all(lat, lon, alt, hr, vectors)
            check_g2q(res, expected, vec, scale, vectors, ctx, **info)
            check_all(res, expected, grads, scale, alt, hr, vectors, ctx, **info)
            one = qdlib.g2q(lat, lon, alt, vectors)
            for name in one:
                require_same(res[name], one[name], "APXG2ALL and APXG2Q differ", name=name, **info)


def check_inverse(exp, epoch, qlat, qlon, alt, prec, generated, ctx, **info):
    glat, glon, error = qdlib.q2g(qlat, qlon, alt, prec)
    xyz = apex.invert(exp, epoch, qlat, qlon, alt)
    size = np.linalg.norm(xyz)
    if prec < 0:
        ctx.label("inverse expansion")
        if size > 0.05:
            require(np.linalg.norm(sphere(glat, glon) - xyz / size) <= 2e-6 / size, "wrong inverse expansion", got=(glat, glon), expected=xyz, **info)
        require(error == MISSING, "error of the inversion is not marked missing", got=error, **info)
        return
    got = sphere(glat, glon)
    # residual of the returned position
    _, vec, (qe, qn, dist), _ = apex.evaluate_geodetic(exp, epoch, glat, glon, alt)
    grad = max(1.0, np.linalg.norm(qe), np.linalg.norm(qn))
    actual = degrees_between(vec, sphere(qlat, qlon))
    if exp.nmax > 5 and not math.isnan(error):
        # a tiny angle is computed by the arc cosine
        require_close(error, actual, 2e-6 + 1e-4 * actual + 1e-5 * grad, "wrong error of the inversion", got_position=(glat, glon), **info)
        if alt >= 0:
            ctx.label("refined inversion")
            require(error <= prec, "the inversion does not reach the precision", error=error, precision=prec, **info)


@check(st.tuples(st.integers(0, len(FILES) - 1), gen.finite(1980, 2030).map(f32), LATS, LONS, HEIGHTS.filter(lambda h: h >= 0), st.sampled_from([1e-2, 1e-3, 1e-4])),
       quick=3000, thorough=200000, rule="positions converted to the quasi-dipole coordinates and back; always non-trivial")
def round_trip(case, ctx):
    """APXQ2G with a refinement inverts APXG2Q"""
    source, epoch, lat, lon, alt, prec = case
    path, exp = open_source(source)
    ctx.nontrivial()
    qdlib.load(path, epoch)
    res = qdlib.g2q(lat, lon, alt, False)
    glat, glon, error = qdlib.q2g(res["qlat"], res["qlon"], alt, prec)
    require(error <= prec, "the inversion does not reach the precision", case=case, error=error)
    # quasi-dipole lines converge in the South Atlantic
    expected = apex.evaluate_geodetic(exp, epoch, lat, lon, alt)
    f = abs(expected[0][6])
    smallest = f / math.sqrt(sum(v * v for v in expected[0][2:6]))
    tol = (prec + 3e-5) / max(smallest, 0.05) * 1.3 + 3e-5
    diff = degrees_between(sphere(glat, glon), sphere(lat, lon))
    require(diff <= tol, "the inversion is another position", case=case, got=(glat, glon), difference=diff, tolerance=tol)


@check(st.tuples(st.integers(0, len(FILES) - 1), gen.finite(1980, 2030).map(f32), gen.finite(-85, 85).map(f32), LONS, gen.finite(100, 5000).map(f32), st.sampled_from([0.0, 110.0])),
       quick=1500, thorough=100000, rule="numeric gradients of the modified apex coordinates of the expansion above the reference height; non-trivial away from the poles and the equator of the apex coordinates")
def gradients(case, ctx):
    """d1 = (R+hr) cos(mlat) grad(mlon), d2 = -(R+hr) sin(I) grad(mlat) (Richmond 1995)"""
    source, epoch, lat, lon, alt, hr = case
    path, exp = open_source(source)
    alt = max(alt, hr + 20)

    def coords(la, lo, h):
        qlat, qlon = apex.evaluate_geodetic(exp, epoch, la, lo, h)[0][:2]
        cosm = math.cos(math.radians(qlat)) * math.sqrt((apex.RE + hr) / (apex.RE + h))
        return math.copysign(math.acos(min(cosm, 1.0)), qlat), math.radians(qlon)
    mlat, mlon = coords(lat, lon, alt)
    if abs(math.degrees(mlat)) > 80 or abs(apex.evaluate_geodetic(exp, epoch, lat, lon, alt)[0][0]) < 2:
        return
    ctx.nontrivial()
    w2 = 1 - apex.ECC2 * math.sin(math.radians(lat)) ** 2
    east = (apex.REQ / math.sqrt(w2) + alt) * math.cos(math.radians(lat))
    north = apex.REQ * (1 - apex.ECC2) / w2 ** 1.5 + alt
    da = 1e-3
    pairs = [(coords(lat, lon + da, alt), coords(lat, lon - da, alt), 2 * math.radians(da) * east),
             (coords(lat + da, lon, alt), coords(lat - da, lon, alt), 2 * math.radians(da) * north),
             (coords(lat, lon, alt + 0.1), coords(lat, lon, alt - 0.1), 0.2)]
    dlat = np.array([(a[0] - b[0]) / d for a, b, d in pairs])
    dlon = np.array([((a[1] - b[1] + math.pi) % (2 * math.pi) - math.pi) / d for a, b, d in pairs])
    radius = apex.RE + hr
    sini = 2 * math.sin(mlat) / math.sqrt(4 - 3 * math.cos(mlat) ** 2)
    qdlib.load(path, epoch)
    res = qdlib.g2all(lat, lon, alt, hr, 1)
    # the components of the expansion are not exactly those of a unit vector
    require_close(res["d1"], radius * math.cos(mlat) * dlon, 0.02 * (1 + np.abs(res["d1"]).max()), "d1 is not the gradient of the longitude", case=case)
    require_close(res["d2"], -radius * sini * dlat, 0.02 * (1 + np.abs(res["d2"]).max()), "d2 is not the gradient of the latitude", case=case)


NEAR_POLE = st.tuples(st.sampled_from([-1.0, 1.0]), st.one_of(gen.finite(87.5, 90.0), gen.finite(-3, 1).map(lambda e: 90 - 10.0 ** e * 0.25), st.sampled_from([88.0, 90.0, 89.99]))).map(lambda p: f32(p[0] * p[1]))


@check(st.tuples(st.integers(0, len(FILES) - 1), gen.finite(1980, 2030).map(f32), NEAR_POLE, LONS, st.one_of(st.sampled_from([0.0, 110.0, 450.0]), gen.finite(0, 3000).map(f32), gen.finite(0, 60000).map(f32)),
                 st.sampled_from([1e-2, 1e-3, 1e-4, 3e-5])),
       quick=3000, thorough=200000, rule="quasi-dipole positions within 2.5 degrees of the quasi-dipole poles inverted with a refinement, which is done there in other variables; non-trivial where the expansion alone is not precise enough")
def polar_inverse(case, ctx):
    """APXQ2G with a refinement reaches the precision near the quasi-dipole poles"""
    source, epoch, qlat, qlon, alt, prec = case
    path, exp = open_source(source)
    qdlib.load(path, epoch)
    xyz = apex.invert(exp, epoch, qlat, qlon, alt)
    size = np.linalg.norm(xyz)
    lat, lon = math.degrees(math.asin(max(-1.0, min(1.0, xyz[2] / size)))), math.degrees(math.atan2(xyz[1], xyz[0]))
    start = degrees_between(apex.evaluate_geodetic(exp, epoch, lat, lon, alt)[1], sphere(qlat, qlon))
    if start > prec:
        ctx.nontrivial()
    check_inverse(exp, epoch, qlat, qlon, alt, prec, False, ctx, case=case)
