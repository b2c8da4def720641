"""P14 quasi-dipole coordinates"""
import hashlib
import json
import math
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import eoxmagmod as em
import eoxmagmod.data as data
from vh import gen, apex
from vh.core import check, require, require_shape, require_close, require_same

FILES = [data.APEX_2015, data.APEX_2020, data.APEX_2025, data.APEX_2030]
SCRATCH = os.environ.get("VH_SCRATCH", "/tmp")


def synthetic(spec):
    """path and expansion of a generated coefficient file"""
    r = gen.rng(spec["seed"])
    nmax, mmax, lmax = spec["nmax"], min(spec["mmax"], spec["nmax"]), spec["lmax"]
    k = apex.nterm(nmax, mmax)
    epochs = np.array(spec["epochs"])
    coeff = r.normal(size=(len(epochs), lmax + 1, k, 3)) * 0.03
    coeff[:, 0, 1, 2] += 0.8           # close to the identity
    if mmax > 0:
        coeff[:, 0, nmax + 1, 0] += 0.8
        coeff[:, 0, nmax + 2, 1] += 0.8
    exp = apex.Expansion(nmax, mmax, lmax, epochs, coeff)
    name = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16] + ".txt"
    path = os.path.join(SCRATCH, name)
    if not os.path.exists(path):
        apex.dump(path, exp, inverse=7.0)
    return path, exp


@st.composite
def sources(draw):
    if draw(st.integers(0, 2)):
        return draw(st.integers(0, len(FILES)))
    start = draw(st.sampled_from([1900.0, 1980.0, 1995.5, 2010.0]))
    epochs = [start]
    for step in draw(st.lists(st.sampled_from([1.0, 5.0, 5.0, 2.5, 10.0]), max_size=3)):
        epochs.append(epochs[-1] + step)
    return {"seed": draw(gen.SEED), "nmax": draw(st.integers(1, 5)), "mmax": draw(st.integers(1, 5)), "lmax": draw(st.integers(0, 3)), "epochs": epochs}


def epochs_of(source):
    if isinstance(source, dict):
        return source["epochs"]
    return [float(v) for v in apex.load(FILES[min(source, len(FILES) - 1)]).epochs]


RADII = st.one_of(gen.finite(6340, 9000), gen.finite(6340, 30000), st.sampled_from([6371.2, 6481.2, 6821.2]))
POINT = st.tuples(gen.latitudes(), gen.longitudes(wrap=False), RADII).map(list)


@st.composite
def requests(draw, source):
    ep = epochs_of(source)
    near = st.one_of(st.sampled_from(ep), gen.finite(ep[0] - 5, ep[-1] + 5), gen.finite(ep[0], ep[-1]), st.sampled_from([ep[0] - 100, ep[-1] + 100, ep[0] - 0.001, ep[-1] + 0.001]))
    count = draw(st.integers(1, 4))
    times = [draw(near) for _ in range(count)]
    kind = draw(st.integers(0, 4))
    if kind == 0:
        times = [times[0]] * count
    elif kind == 1:         # slow drift
        times = [times[0] + i * draw(st.sampled_from([0.001, 0.0027, 0.01, 0.1])) for i in range(count)]
    if draw(st.integers(0, 9)) == 0:
        times[draw(st.integers(0, count - 1))] = math.nan
    points = [draw(POINT) for _ in range(count)]
    if draw(st.booleans()):
        points[-1][2] = points[0][2]
    if draw(st.integers(0, 3)) == 0:
        points[-1] = points[0]
    return {"source": source, "times": times, "points": points, "vectors": draw(st.booleans()), "scalar": count == 1 and draw(st.booleans())}


@st.composite
def histories(draw):
    pool = draw(st.lists(sources(), min_size=1, max_size=3))
    items = []
    for _ in range(draw(st.integers(1, 4))):
        items.append(draw(requests(draw(st.sampled_from(pool)))))
    if len(items) > 2 and draw(st.booleans()):
        items.append(items[0])
    return items


def open_source(source):
    if isinstance(source, dict):
        return synthetic(source)
    path = FILES[min(source, len(FILES) - 1)]
    return path, apex.load(path)


f32 = lambda v: float(np.float32(v))


@check(histories(), quick=5000, thorough=300000,
       rule="sequences of evaluations with the provided and generated coefficient files (1-4 epochs, degrees 1-5), epochs in and out of the range, batches of same, close, distant and undefined times; non-trivial for more than one request or element")
def expansion(case, ctx):
    first = {}
    for number, req in enumerate(case):
        path, exp = open_source(req["source"])
        args = [np.array([p[i] for p in req["points"]]) for i in range(3)] + [np.array(req["times"])]
        if req["scalar"]:
            args = [float(a[0]) for a in args]
        shape = np.shape(args[0])
        kw = {} if req["source"] == len(FILES) else {"fname": path}
        func = em.eval_qdlatlon_with_base_vectors if req["vectors"] else em.eval_qdlatlon
        res = func(*args, **kw)
        require(len(res) == (7 if req["vectors"] else 2), "wrong number of results")
        for v in res:
            require_shape(v, shape)
        if len(case) > 1 or len(req["times"]) > 1:
            ctx.nontrivial("generated file" if isinstance(req["source"], dict) else "provided file")
        res = np.reshape(res, (len(res), -1))
        other = (em.eval_qdlatlon if req["vectors"] else em.eval_qdlatlon_with_base_vectors)(*args, **kw)
        require_same(np.reshape(other[:2], (2, -1)), res[:2], "the variants with and without base vectors differ", request=req)
        key = json.dumps(req, sort_keys=True)
        if key in first:
            require_same(res, first[key], "differs from the same previous request", request=req, history=case)
        first[key] = res
        batch = [t for t in req["times"] if not math.isnan(t)]
        for i, (t, p) in enumerate(zip(req["times"], req["points"])):
            if math.isnan(t):
                require(np.all(np.isnan(res[:, i])), "result for an undefined time", request=req)
                continue
            exact = [f32(v) for v in p]
            expected, vec, (qe, qn, dist) = apex.evaluate(exp, f32(t), exact[0], exact[1], exact[2])
            drift = 0.0
            # another near epoch of the batch may be used
            if any(t != s and abs(t - s) < 0.0031 for s in batch):
                for s in (t - 0.0031, t + 0.0031):
                    _, _, (qe1, qn1, _) = apex.evaluate(exp, s, *exact)
                    v1 = apex.evaluate(exp, s, *exact)[1]
                    drift = max(drift, np.linalg.norm(v1 - vec), np.linalg.norm(qe1 - qe), np.linalg.norm(qn1 - qn))
                drift *= 1.5
            grad = max(1.0, np.linalg.norm(qe), np.linalg.norm(qn))
            size = max(math.hypot(dist, 0), 1e-3)
            la, lo = np.radians(res[:2, i])
            got = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
            norm = 1.0 if not isinstance(req["source"], dict) else 0.3
            tol = (6e-6 * grad) / norm + drift / norm
            require(np.linalg.norm(got - vec) <= tol, "wrong quasi-dipole latitude and longitude", time=t, point=p, got=res[:2, i], expected=expected[:2],
                    difference=np.linalg.norm(got - vec), tolerance=tol, request=number, history=case)
            require(abs(res[0, i]) <= 90.0001 and abs(res[1, i]) <= 180.0001, "angle out of range", got=res[:2, i])
            if req["vectors"]:
                tolb = (6e-6 * grad * grad + 2 * drift) / norm / min(size, 1.0)
                require_close(res[2:6, i], expected[2:6], tolb, "wrong base vectors", time=t, point=p, request=number, history=case)
                f11, f12, f21, f22, f = res[2:, i]
                require_close(f, f11 * f22 - f12 * f21, 1e-6 * (abs(f11 * f22) + abs(f12 * f21)), "F is not the cross product of the base vectors", time=t, point=p)


@check(st.tuples(st.integers(0, len(FILES)), gen.finite(1985, 2025), gen.finite(-70, 70), gen.finite(-180, 180), gen.finite(6400, 8000)),
       quick=1500, thorough=50000, rule="numeric derivatives of the quasi-dipole coordinates by the position; always non-trivial")
def base_vectors_are_gradients(case, ctx):
    """F1 and F2 are the rotated gradients of the quasi-dipole latitude and longitude"""
    source, time, lat, lon, rad = case
    path = FILES[min(source, len(FILES) - 1)]
    ctx.nontrivial()
    geod = em.convert([lat, lon, rad], em.GEOCENTRIC_SPHERICAL, em.GEODETIC_ABOVE_WGS84)
    step = 1.0
    pts = []
    for dla, dlo in [(0, 0), (step, 0), (-step, 0), (0, step), (0, -step)]:
        pts.append(em.convert([geod[0] + dla, geod[1] + dlo, geod[2]], em.GEODETIC_ABOVE_WGS84, em.GEOCENTRIC_SPHERICAL))
    pts = np.array(pts)
    qla, qlo, f11, f12, f21, f22, f = em.eval_qdlatlon_with_base_vectors(pts[:, 0], pts[:, 1], pts[:, 2], np.full(5, time), path)
    if np.max(np.abs(qla)) > 75:
        return
    # lengths of the steps relative to the reference radius and height
    w2 = 1 - apex.ECC2 * math.sin(math.radians(geod[0])) ** 2
    scale = apex.RE + geod[2]
    north = (apex.REQ * (1 - apex.ECC2) / w2 ** 1.5 + geod[2]) / scale
    east = (apex.REQ / math.sqrt(w2) + geod[2]) * math.cos(math.radians(geod[0])) / scale
    wrap = lambda v: v - 360 * np.round(v / 360)
    cq = math.cos(math.radians(qla[0]))
    lat_n, lat_e = (qla[1] - qla[2]) / (2 * step * north), (qla[3] - qla[4]) / (2 * step * east)
    lon_n, lon_e = wrap(qlo[1] - qlo[2]) * cq / (2 * step * north), wrap(qlo[3] - qlo[4]) * cq / (2 * step * east)
    # the vectors of the expansion are those of the non-normalised coordinates
    require_close([f11[0], f12[0], f21[0], f22[0]], [lat_n, -lat_e, -lon_n, lon_e], 0.05, "base vectors are not gradients of the quasi-dipole coordinates", case=case)


@st.composite
def long_names(draw):
    return {"length": draw(st.one_of(st.integers(200, 1023), st.sampled_from([254, 255, 256, 257, 511, 512, 513, 1021, 1022, 1023, 1023]))),
            "file": draw(st.integers(0, len(FILES) - 1)), "other": draw(st.integers(1, len(FILES) - 1)), "cut": draw(st.integers(1, 3)),
            "letter": draw(st.sampled_from("aZ_ é")), "time": draw(gen.finite(1990, 2020)), "vectors": draw(st.booleans()),
            "point": [draw(gen.latitudes()), draw(gen.longitudes(wrap=False)), draw(RADII)]}


@check(long_names(), quick=600, thorough=20000,
       rule="names of the files of 200 to 1023 bytes, spaces and other characters included, another file having the cut name; always non-trivial")
def long_file_names(case, ctx):
    ctx.nontrivial()
    root = tempfile.mkdtemp(dir=SCRATCH)
    try:
        left = case["length"] - len(os.fsencode(root)) - 6
        if left < 2:
            return
        folder = root
        while left > 100:
            # directories with the fill letter inside of their names
            size = min(100, left - 10)
            name = "d" + case["letter"] * ((size - 3) // len(os.fsencode(case["letter"])))
            name += "d" * (size - 1 - len(os.fsencode(name)))
            folder = os.path.join(folder, name)
            left -= size
        os.makedirs(folder, exist_ok=True)
        length = case["length"] - len(os.fsencode(folder)) - 1
        path = os.path.join(folder, "f" * length)
        require(len(os.fsencode(path)) == case["length"], "wrong length of the test path")
        os.symlink(FILES[case["file"]], path)
        if length > case["cut"]:
            os.symlink(FILES[(case["file"] + case["other"]) % len(FILES)], path[:-case["cut"]])
        func = em.eval_qdlatlon_with_base_vectors if case["vectors"] else em.eval_qdlatlon
        lat, lon, rad = case["point"]
        expected = func(lat, lon, rad, case["time"], FILES[case["file"]])
        require_same(func(lat, lon, rad, case["time"], path), expected, "differs from the same file of a short name", case=case)
    finally:
        shutil.rmtree(root)
