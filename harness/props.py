"""Run-time contracts of the public API, evaluated on the real code with generated
inputs.  Bounded: the stand-in, and the replay, of the deductive part.

For each property: gen(rng, n) yields cases (JSON-able dictionaries); check(case)
returns None, or a text that says what is broken, or raises Skip.
"""
import copy
import math
import random
import warnings
import logging

import numpy as np

import oracle as O

warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.CRITICAL)

from climate_indices import compute, eto, indices, lmoments, palmer, utils  # noqa: E402

NAN = float("nan")
PER = {12: compute.Periodicity.monthly, 366: compute.Periodicity.daily}
DIST = {"gamma": indices.Distribution.gamma, "pearson": indices.Distribution.pearson}


class Skip(Exception):
    pass


# ------------------------------------------------------------------ helpers
def A(v, kind="1d", p=12):
    """a numpy array of a list: 1d, 2d (rows of p), strided (a view of every other element),
    ro (read-only), rev (a negatively strided view), f (2d, Fortran order)"""
    a = np.array(v, dtype=float)
    if kind == "2d":
        return a.reshape(-1, p)
    if kind == "f":
        return np.asfortranarray(a.reshape(-1, p))
    if kind == "strided":
        b = np.zeros(2 * len(v) + 1)
        b[:2 * len(v):2] = a
        return b[:2 * len(v):2]
    if kind == "rev":
        return a[::-1].copy()[::-1]
    if kind == "ro":
        a.flags.writeable = False
    return a


def call(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:  # noqa
        return "exc", e


def close(x, y, rtol=1e-7, atol=1e-9):
    x, y = float(x), float(y)
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def cmp_list(got, exp, what, rtol=1e-7, atol=1e-9):
    """exp entries None: anything"""
    got = np.asarray(got, dtype=float).ravel().tolist()
    if len(got) != len(exp):
        return f"{what}: {len(got)} values, expected {len(exp)}"
    for i, (g, e) in enumerate(zip(got, exp)):
        if e is None:
            continue
        if not close(g, e, rtol, atol):
            return f"{what}[{i}] = {g!r}, expected {e!r}"
    return None


def need_ok(r, what):
    if r[0] != "ok":
        return f"{what} raised {type(r[1]).__name__}: {r[1]}"
    return None


STYLES = ("gamma", "zeros", "nans", "block", "neg", "nanneg", "mix", "arid", "lead", "trail", "big", "small", "int", "onestep")


def series(rng, n, style, p=12):
    g = [rng.gammavariate(rng.choice((0.7, 2.0, 5.0)), 25.0) if i % 3 else rng.gammavariate(1.5, 40.0) for i in range(n)]
    if style == "zeros":
        g = [0.0 if rng.random() < 0.25 else x for x in g]
    elif style == "arid":
        g = [0.0 if rng.random() < 0.7 else x for x in g]
    elif style == "nans":
        g = [NAN if rng.random() < 0.1 else x for x in g]
    elif style == "block":
        i = rng.randrange(max(1, n))
        for k in range(i, min(n, i + rng.randint(1, p + 3))):
            g[k] = NAN
    elif style == "neg":
        g = [-x if rng.random() < 0.1 else x for x in g]
    elif style == "nanneg":
        g = [NAN if rng.random() < 0.07 else (-x if rng.random() < 0.1 else (0.0 if rng.random() < 0.1 else x)) for x in g]
    elif style == "mix":
        g = [NAN if rng.random() < 0.07 else (0.0 if rng.random() < 0.2 else x) for x in g]
    elif style == "lead":
        for k in range(min(n - 1, rng.randint(1, p + 2))):
            g[k] = NAN
    elif style == "trail":
        for k in range(min(n - 1, rng.randint(1, p + 2))):
            g[n - 1 - k] = NAN
    elif style == "big":
        g = [x * 1e4 for x in g]
    elif style == "small":
        g = [x * 1e-4 for x in g]
    elif style == "int":
        g = [float(round(x / 10)) for x in g]
    elif style == "onestep":
        s = rng.randrange(p)
        g = [0.0 if i % p == s and rng.random() < 0.6 else x for i, x in enumerate(g)]
    if n and all(x != x for x in g):
        g[rng.randrange(n)] = 3.5
    return g


def calibration(rng, start, years):
    """a calibration period: inside, touching either end, or not covered"""
    k = rng.randrange(8)
    end = start + years - 1
    if k == 0 or years < 6:
        return start, end
    if k == 1:
        return start - rng.randint(1, 3), end - rng.randint(0, 3)
    if k == 2:
        return start + rng.randint(0, 2), end + rng.choice((1, 1, 2, 7))
    a = start + rng.randint(0, years // 3)
    b = end - rng.randint(0, years // 3)
    if k == 3:
        return a, end
    if k == 4:
        return start, b
    return a, max(b, a + 4)


def spi_case(rng, k, p=None, dist=None, years=None, style=None):
    p = p or (366 if rng.randrange(9) == 8 else 12)
    years = years or (rng.randint(6, 9) if p == 366 else rng.choice((6, 9, 12, 20, 30)))
    partial = rng.choice((0, 0, rng.randint(1, p - 1)))
    n = years * p - partial
    style = style or STYLES[rng.randrange(len(STYLES))]
    start = rng.choice((1895, 1900, 1950, 1980, 1999, 2000))
    c0, c1 = calibration(rng, start, years)
    scale = rng.choice((1, 1, 2, 3, 6, 12, 24, 5)) if p == 12 else rng.choice((1, 1, 7, 30, 90))
    dist = dist or ("gamma", "pearson")[rng.randrange(2)]
    kind = rng.choice(("1d", "1d", "strided", "ro", "rev"))
    if partial == 0 and rng.random() < 0.4:
        kind = rng.choice(("2d", "f"))
    return dict(v=series(rng, n, style, p), p=p, scale=scale, start=start, c0=c0, c1=c1, dist=dist, kind=kind, style=style)


def add_pet(rng, c):
    n = len(c["v"])
    c["pet"] = [NAN if rng.random() < 0.03 else abs(rng.gauss(60, 40)) for _ in range(n)]
    if rng.random() < 0.5:
        c["pet"] = [0.0 if x != x else x for x in c["pet"]]
    if c["style"] == "big":
        c["v"] = [x / 1e3 for x in c["v"]]
    return c


def do_spi(c, params=None, v=None):
    return call(indices.spi, A(c["v"] if v is None else v, c["kind"], c["p"]), c["scale"], DIST[c["dist"]], c["start"],
                c["c0"], c["c1"], PER[c["p"]], params)


def do_spei(c, params=None, v=None, pet=None):
    return call(indices.spei, A(c["v"] if v is None else v, c["kind"], c["p"]),
                A(c["pet"] if pet is None else pet, c["kind"], c["p"]), c["scale"],
                DIST[c["dist"]], PER[c["p"]], c["start"], c["c0"], c["c1"], params)


def totals(c):
    """sliding totals of a case, as the definition has them"""
    v = [x if x != x else max(x, 0.0) for x in c["v"]]
    if "pet" in c:
        v = [x - y + 1000.0 for x, y in zip(v, c["pet"])]
    return O.sliding(v, c["scale"])


def undefined_pearson(c, tot=None):
    """whether some calendar step has no Pearson fit (the code may raise ValueError)"""
    r = O.rows(tot if tot is not None else totals(c), c["p"])
    i0, i1 = O.calib(len(r), c["start"], c["c0"], c["c1"])
    for s in range(c["p"]):
        col = [x[s] for x in r]
        if O.pearson_params(col[i0:i1]) is None:
            return True
    return False


def expected_index(c):
    """the index values by definition; None where rounding decides or the definition does not apply"""
    tot = totals(c)
    p = c["p"]
    r = O.rows(tot, p)
    i0, i1 = O.calib(len(r), c["start"], c["c0"], c["c1"])
    out = [NAN] * (len(r) * p)
    if all(x != x for x in tot):
        return [NAN] * len(tot)
    for s in range(p):
        col = [x[s] for x in r]
        cal = col[i0:i1]
        if c["dist"] == "gamma":
            al, be, a = O.gamma_fit(cal)
            bad = any(x < 0 for x in cal) or (a == a and a < 1e-6)
            for y, x in enumerate(col):
                if x != x or x == 0:
                    e = NAN
                elif bad:
                    e = None
                elif al != al:
                    e = NAN
                else:
                    e = O.clip309(O.gamma_index(col, x, al, be))
                out[y * p + s] = e
        else:
            pp = O.pearson_params(cal)
            if pp is None:
                raise Skip()
            p0, loc, sc, sk = pp
            end = O.pearson_end(loc, sc, sk)
            for y, x in enumerate(col):
                if x != x:
                    e = NAN
                elif abs(x - 0.0005) < 1e-9 or abs(x - end) <= 1e-7 * (abs(end) + sc) or (sc > 0 and abs(sk) < 1e-4):
                    e = None
                elif sc == 0 and x >= 0.0005:
                    e = NAN
                else:
                    e = O.clip309(O.pearson_index(x, p0, loc, sc, sk))
                out[y * p + s] = e
    return out[:len(tot)]


# ------------------------------------------------------------------ C01
def gen_C01(rng, n):
    for k in range(n):
        c = spi_case(rng, k)
        if rng.randrange(5) == 4:
            c["v"] = series(rng, rng.choice((1, 2, 11, 13, 25)) if c["p"] == 12 else rng.choice((1, 365, 367)), "zeros")
            c["kind"] = "1d"
            c["dist"] = "gamma" if rng.randrange(2) else c["dist"]
        if rng.randrange(11) == 5:
            c["v"] = [NAN] * len(c["v"])
        c["params"] = rng.randrange(4) == 3
        if rng.randrange(3) == 2:
            add_pet(rng, c)
            if rng.randrange(2):
                c["pet"] = [x * rng.choice((1, 30)) for x in c["pet"]]
        if c["params"]:
            c["pseed"] = rng.randrange(10 ** 6)
        yield c


def rand_params(c):
    rng = random.Random(c["pseed"])
    p = c["p"]
    if c["dist"] == "gamma":
        return {"alpha": np.array([rng.choice((0.01, 0.5, 3.0, 200.0)) * rng.random() for _ in range(p)]),
                "beta": np.array([rng.choice((0.1, 30.0, 1e4)) * rng.random() for _ in range(p)])}
    return {"prob_zero": np.array([rng.choice((0.0, rng.random())) for _ in range(p)]),
            "loc": np.array([rng.uniform(1, 100) for _ in range(p)]),
            "scale": np.array([rng.uniform(1, 60) for _ in range(p)]),
            "skew": np.array([rng.choice((0.0, rng.uniform(-3, 3))) for _ in range(p)])}


def check_C01(c):
    pr = rand_params(c) if c.get("params") else None
    name = "spei" if "pet" in c else "spi"
    r = (do_spei if "pet" in c else do_spi)(c, pr)
    if all(x != x for x in c["v"]):
        if r[0] != "ok":
            return need_ok(r, name)
        g = np.asarray(r[1])
        if g.size != len(c["v"]) or not np.all(np.isnan(g)):
            return f"{name} of a wholly missing series is not returned unchanged"
        return None
    if r[0] != "ok":
        if c["dist"] == "pearson" and isinstance(r[1], ValueError) and undefined_pearson(c):
            raise Skip()
        return need_ok(r, name)
    g = r[1]
    if not isinstance(g, np.ndarray) or g.ndim != 1 or g.size != len(c["v"]):
        return f"{name} returned shape {getattr(g, 'shape', None)} for {len(c['v'])} values"
    for i, x in enumerate(g.tolist()):
        if x == x and not (-3.09 <= x <= 3.09):
            return f"{name}[{i}] = {x!r}, outside [-3.09, 3.09]"
    if c["p"] == 12 or len(c["v"]) < 3000:
        try:
            e = expected_index(c) if pr is None else None
        except Skip:
            e = None
        if e is not None:
            m = cmp_list(g, e, name, 1e-5, 1e-5)
            if m:
                return "misaligned or wrong: " + m
    return None


# ------------------------------------------------------------------ C02
def gen_C02(rng, n):
    for k in range(n):
        c = spi_case(rng, k, style=("nans", "block", "mix", "nanneg", "lead", "trail")[rng.randrange(6)])
        c["what"] = ("spi", "spei", "pnp", "sum", "pet", "harg", "scale")[rng.randrange(7)]
        if c["what"] == "spei":
            add_pet(rng, c)
        if c["what"] == "pnp":
            c["kind"] = "1d"
            c["c0"], c["c1"] = c["start"], c["start"] + len(c["v"]) // c["p"] - 1
            if rng.randrange(2):
                c["c0"] += 1
        if c["what"] in ("sum", "scale"):
            c["kind"] = "1d" if c["what"] == "sum" else c["kind"]
        if c["what"] == "pet":
            m = rng.choice((24, 37, 60, 144, 145))
            t = [rng.gauss(12, 10) for _ in range(m)]
            c["v"] = [NAN if rng.random() < 0.15 and i >= 12 else x for i, x in enumerate(t)]
            if rng.randrange(4) == 0:
                c["v"] = [x if x != x else -abs(x) for x in c["v"]]
            c["lat"] = rng.choice((-90.0, -66.0, 0.0, 35.0, 90.0, rng.uniform(-90, 90)))
            c["start"] = rng.choice((1896, 1900, 1999, 2000, 2003))
            c["kind"] = "1d"
        if c["what"] == "harg":
            m = rng.choice((10, 366, 400, 732))
            c["v"] = [NAN if rng.random() < 0.1 else rng.gauss(12, 8) for _ in range(m)]
            c["lo"] = [NAN if rng.random() < 0.1 else (x if x == x else 5.0) - rng.uniform(0, 9) for x in c["v"]]
            c["hi"] = [NAN if rng.random() < 0.1 else (x if x == x else 5.0) + rng.uniform(0, 9) for x in c["v"]]
            c["hi"] = [h if (h != h or l != l or h >= l) else l for l, h in zip(c["lo"], c["hi"])]
            c["lat"] = rng.uniform(-90, 90)
        yield c


def window_missing(c, v2=None):
    v, s = c["v"], c["scale"]
    n = len(v)
    bad = [x != x for x in v]
    if v2 is not None:
        bad = [a or (y != y) for a, y in zip(bad, v2)]
    cum = [0]
    for b in bad:
        cum.append(cum[-1] + b)
    return [i < s - 1 or cum[i + 1] - cum[max(0, i + 1 - s)] > 0 for i in range(n)]


def check_C02(c):
    w = c["what"]
    if w == "pet":
        kd = "2d" if c.get("kind") == "2d" and len(c["v"]) % 12 == 0 else "1d"
        r = call(eto.eto_thornthwaite if c.get("f") == "eto" else indices.pet, A(c["v"], kd, 12), c["lat"], c["start"])
        m = need_ok(r, "pet")
        if m:
            return m
        if r[1].size != len(c["v"]):
            return "pet: wrong number of values"
        for i, (x, y) in enumerate(zip(c["v"], np.asarray(r[1]).tolist())):
            if (x != x) != (y != y):
                return f"pet[{i}] = {y!r} for temperature {x!r}"
        return None
    if w == "harg":
        kd = "2d" if c.get("kind") == "2d" and len(c["v"]) % 366 == 0 else "1d"
        r = call(eto.eto_hargreaves, A(c["lo"], kd, 366), A(c["hi"], kd, 366), A(c["v"], kd, 366), c["lat"])
        m = need_ok(r, "eto_hargreaves")
        if m:
            return m
        if r[1].size != len(c["v"]):
            return "hargreaves: wrong number of values"
        for i, y in enumerate(np.asarray(r[1]).tolist()):
            miss = c["v"][i] != c["v"][i] or c["lo"][i] != c["lo"][i] or c["hi"][i] != c["hi"][i]
            if miss != (y != y):
                return f"hargreaves[{i}] = {y!r}, an input missing: {miss}"
        return None
    miss = window_missing(c, c.get("pet"))
    if w == "sum":
        r = call(compute.sum_to_scale, A(c["v"]), c["scale"])
        m = need_ok(r, w)
        if m:
            return m
        g = np.asarray(r[1]).tolist()
        if len(g) != len(c["v"]):
            return "sum_to_scale: wrong number of values"
        for i, y in enumerate(g):
            if miss[i] != (y != y):
                return f"sum_to_scale[{i}] = {y!r}, window missing: {miss[i]}"
        return None
    if w == "scale":
        r = call(compute.scale_values, A(c["v"], c["kind"], c["p"]), c["scale"], PER[c["p"]])
        m = need_ok(r, w)
        if m:
            return m
        g = np.asarray(r[1]).ravel().tolist()
        n = len(c["v"])
        if len(g) != -(-n // c["p"]) * c["p"]:
            return "scale_values: wrong number of values"
        for i, y in enumerate(g):
            mi = miss[i] if i < n else True
            if mi != (y != y):
                return f"scale_values[{i}] = {y!r}, window missing: {mi}"
        return None
    if w == "pnp":
        r = call(indices.percentage_of_normal, A(c["v"]), c["scale"], c["start"], c["c0"], c["c1"], PER[c["p"]])
        m = need_ok(r, w)
        if m:
            return m
        g = r[1].tolist()
    else:
        r = (do_spei if w == "spei" else do_spi)(c)
        if r[0] != "ok":
            if c["dist"] == "pearson" and isinstance(r[1], ValueError) and undefined_pearson(c):
                raise Skip()
            return need_ok(r, w)
        g = r[1].tolist()
    if len(g) != len(c["v"]):
        return f"{w}: wrong number of values"
    for i, y in enumerate(g):
        if miss[i] and y == y:
            return f"{w}[{i}] = {y!r} though its window is incomplete or has a missing value"
    # and a missing value affects no other window
    if w in ("spi", "spei"):
        e = expected_index(c)
    else:
        e = O.pnp(c["v"], c["scale"], c["start"], c["c0"], c["c1"], c["p"])
    for i, (y, x) in enumerate(zip(g, e)):
        if x is not None and x == x and y != y:
            return f"{w}[{i}] is missing, expected {x!r}"
        if x is not None and x == x and not close(x, y, 1e-4, 1e-4):
            return f"{w}[{i}] = {y!r}, expected {x!r} (a missing value was counted)"
    return None


# ------------------------------------------------------------------ C03
def gen_C03(rng, n):
    for k in range(n):
        p = 366 if rng.randrange(6) == 5 else 12
        m = rng.choice((1, 2, 5, 11, 12, 13, 24, 36, 61)) if p == 12 else rng.choice((1, 200, 365, 366, 367, 732))
        scale = rng.choice((1, 2, 3, 5, 6, 12, 24, 48, m, m + 1, max(1, m - 1)))
        style = STYLES[rng.randrange(len(STYLES))]
        v = series(rng, m, style, p)
        kind = rng.choice(("1d", "strided", "ro", "rev"))
        if m % p == 0 and rng.randrange(2):
            kind = rng.choice(("2d", "f"))
        yield dict(v=v, p=p, scale=scale, kind=kind, what=("sum", "scale")[rng.randrange(2)] if kind not in ("2d", "f") else "scale")
    for k in range(n // 4):
        p = rng.choice((12, 366, 7))
        m = rng.choice((1, p - 1, p, p + 1, 3 * p, 2 * p + 5))
        yield dict(v=series(rng, m, "nans"), p=p, what="reshape", kind="2d" if m % p == 0 and rng.randrange(2) else "1d")


def check_C03(c):
    tol = 1e-9
    if c["what"] == "reshape":
        r = call(utils.reshape_to_2d, A(c["v"], c["kind"], c["p"]), c["p"])
        m = need_ok(r, "reshape_to_2d")
        if m:
            return m
        e = O.rows(c["v"], c["p"])
        if r[1].shape != (len(e), c["p"]):
            return f"reshape_to_2d: shape {r[1].shape}"
        return cmp_list(r[1], [x for row in e for x in row], "reshape_to_2d", 0, 0)
    if c["what"] == "sum":
        r = call(compute.sum_to_scale, A(c["v"], c["kind"]), c["scale"])
        m = need_ok(r, "sum_to_scale")
        if m:
            return m
        big = max([abs(x) for x in c["v"] if x == x] + [0]) * c["scale"]
        if np.ndim(r[1]) != 1:
            return "sum_to_scale: not 1-D"
        return cmp_list(r[1], O.sliding(c["v"], c["scale"]), "sum_to_scale", tol, 1e-12 * big)
    r = call(compute.scale_values, A(c["v"], c["kind"], c["p"]), c["scale"], PER[c["p"]])
    m = need_ok(r, "scale_values")
    if m:
        return m
    v = [x if x != x else max(x, 0.0) for x in c["v"]]
    big = max([abs(x) for x in v if x == x] + [0]) * c["scale"]
    e = O.rows(O.sliding(v, c["scale"]), c["p"])
    if r[1].shape != (len(e), c["p"]):
        return f"scale_values: shape {r[1].shape}, expected {(len(e), c['p'])}"
    return cmp_list(r[1], [x for row in e for x in row], "scale_values", tol, 1e-12 * big)


# ------------------------------------------------------------------ C04
def gen_C04(rng, n):
    for k in range(n):
        start = rng.choice((1895, 1896, 1899, 1900, 1901, 1995, 1996, 1999, 2000, 2003, 2096, 2099, 2100, rng.randint(1583, 2400)))
        years = rng.choice((1, 1, 2, 3, 4, 5, 9))
        need = sum(366 if O.isleap(y) else 365 for y in range(start, start + years))
        cut = 0 if rng.randrange(2) else rng.choice((1, 300, 306, 307, 308, 320, 340, 364, rng.randint(1, 364)))
        v = [float(i + 1) + rng.random() for i in range(need - cut)]
        if rng.randrange(3) == 0:
            v = [NAN if rng.random() < 0.05 else x for x in v]
        yield dict(v=v, start=start, years=years, kind=rng.choice(("1d", "ro", "strided")))
    for k in range(n):
        start = rng.randint(1890, 2110)
        yield dict(length=rng.choice((rng.randint(1, 4000), 365, 366, 730, 731, 1461, 1460, 59, 60, 0)), start=start)


def check_C04(c):
    if "length" in c:
        r = call(utils.gregorian_length_as_366day, c["length"], c["start"])
        m = need_ok(r, "gregorian_length_as_366day")
        if m:
            return m
        e = O.length_366(c["length"], c["start"])
        return None if r[1] == e else f"gregorian_length_as_366day({c['length']}, {c['start']}) = {r[1]}, expected {e}"
    r = call(utils.transform_to_366day, A(c["v"], c["kind"]), c["start"], c["years"])
    m = need_ok(r, "transform_to_366day")
    if m:
        return m
    m = cmp_list(r[1], O.to_366(c["v"], c["start"], c["years"]), "transform_to_366day", 1e-12, 0)
    if m:
        return m
    b = call(utils.transform_to_gregorian, np.array(r[1]), c["start"])
    m = need_ok(b, "transform_to_gregorian")
    if m:
        return m
    full = O.to_gregorian(O.to_366(c["v"], c["start"], c["years"]), c["start"])
    m = cmp_list(b[1], full, "transform_to_gregorian", 0, 0)
    if m:
        return m
    return cmp_list(b[1][:len(c["v"])], c["v"], "round trip", 0, 0)


# ------------------------------------------------------------------ C05
def gen_C05(rng, n):
    for k in range(n):
        c = spi_case(rng, k, style=("gamma", "zeros", "nans", "mix", "onestep")[rng.randrange(5)], years=rng.choice((8, 12, 20)) if rng.randrange(9) != 8 else 7)
        c["scale"] = 1
        c["step"] = rng.randrange(c["p"])
        c["pseed"] = rng.randrange(10 ** 6)
        c["what"] = ("params", "slice", "index", "fallback")[rng.randrange(4)]
        if c["what"] in ("index",):
            c["kind"] = "1d"
        yield c


def fit_params(c, v=None, c0=None, c1=None, start=None, kind=None):
    v = A(c["v"] if v is None else v, kind or c["kind"], c["p"])
    f = compute.gamma_parameters if c["dist"] == "gamma" else compute.pearson_parameters
    return call(f, v, c["start"] if start is None else start, c["c0"] if c0 is None else c0,
                c["c1"] if c1 is None else c1, PER[c["p"]])


def skip_if_undefined(c, tot=None, *rs):
    for r in rs:
        if r[0] != "ok" and c["dist"] == "pearson" and isinstance(r[1], ValueError):
            if undefined_pearson(c, tot):
                raise Skip()


def check_C05(c):
    p, s = c["p"], c["step"]
    rng = random.Random(c["pseed"])
    v = c["v"]
    years = -(-len(v) // p)
    i0, i1 = O.calib(years, c["start"], c["c0"], c["c1"])
    r = fit_params(c)
    skip_if_undefined(c, v, r)
    m = need_ok(r, "fitting")
    if m:
        return m
    base = [np.asarray(x).tolist() for x in r[1]]
    for x in base:
        if len(x) != p:
            return f"fitting returned {len(x)} values instead of {p}"
    if c["what"] == "params":
        w = c.get("w") or [x if (i % p == s and i0 <= i // p < i1) else rng.uniform(1, 500) for i, x in enumerate(v)]
        r2 = fit_params(c, w)
        skip_if_undefined(c, w, r2)
        m = need_ok(r2, "fitting")
        if m:
            return m
        for q, (a, b) in enumerate(zip(base, r2[1])):
            if not close(a[s], b[s], 1e-9, 0):
                return (f"parameter {q} of step {s} changes from {a[s]!r} to {float(b[s])!r} with values of other steps or of "
                        "years outside the calibration period")
        return None
    if c["what"] == "slice":
        w = v[i0 * p:min(i1 * p, len(v))]
        if not w or all(x != x for x in w) or i1 <= i0:
            raise Skip()
        r2 = fit_params(c, w, c0=c["start"], c1=c["start"] + (i1 - i0) - 1, kind="1d")
        m = need_ok(r2, "fitting")
        if m:
            return m
        for q, (a, b) in enumerate(zip(base, r2[1])):
            for t in range(p):
                al = O.gamma_fit([w[i] for i in range(t, len(w), p)])[2]
                if c["dist"] == "gamma" and al == al and al < 1e-6:
                    continue
                if not close(a[t], b[t], 1e-7, 1e-9):
                    return f"parameter {q} of step {t} is {a[t]!r}, from the calibration years alone it is {float(b[t])!r}"
        return None
    if c["what"] == "fallback":
        end = c["start"] + years - 1
        full = fit_params(c, c0=c["start"], c1=end)
        m = need_ok(full, "fitting")
        if m:
            skip_if_undefined(dict(c, c0=c["start"], c1=end), v, full)
            return m
        for a, b in ((c["start"] - 1, end), (c["start"], end + 1), (c["start"] - 5, c["start"] + 3), (c["start"] + 2, end + 1)):
            r2 = fit_params(c, c0=a, c1=b)
            m = need_ok(r2, "fitting")
            if m:
                return m
            for q, (x, y) in enumerate(zip(full[1], r2[1])):
                for t in range(p):
                    if not close(x[t], y[t], 1e-9, 0):
                        return f"calibration {a}-{b} is not covered by {c['start']}-{end} but parameter {q} of step {t} differs from the whole record's"
        # the transform, too
        f = compute.transform_fitted_gamma if c["dist"] == "gamma" else compute.transform_fitted_pearson
        x = call(f, A(v, c["kind"], p), c["start"], c["start"], end, PER[p])
        y = call(f, A(v, c["kind"], p), c["start"], c["start"], end + 1, PER[p])
        if x[0] == "ok" and y[0] == "ok":
            return cmp_list(y[1], np.asarray(x[1]).ravel().tolist(), "transform, calibration not covered", 1e-9, 1e-9)
        return need_ok(x, "transform") or need_ok(y, "transform")
    # index values of one step don't depend on the other steps
    w = [x if i % p == s else rng.uniform(1, 500) for i, x in enumerate(v)]
    r1, r2 = do_spi(c), do_spi(c, v=w)
    skip_if_undefined(c, None, r1)
    skip_if_undefined(dict(c, v=w), None, r2)
    m = need_ok(r1, "spi") or need_ok(r2, "spi")
    if m:
        return m
    for i in range(s, len(v), p):
        if not close(r1[1][i], r2[1][i], 1e-7, 1e-7):
            return f"spi[{i}] (step {s}) changes from {r1[1][i]!r} to {r2[1][i]!r} with totals of other calendar steps"
    return None


# ------------------------------------------------------------------ C06, C07
def gen_def(rng, n, dist):
    for k in range(n):
        c = spi_case(rng, k, dist=dist)
        c["what"] = ("index", "params", "index", "spei", "transform", "given")[rng.randrange(6)]
        if c["what"] == "spei":
            c["style"] = "x"
            add_pet(rng, c)
            if rng.randrange(2):
                c["v"] = [x * 0.3 for x in c["v"]]
        if c["what"] in ("params", "transform"):
            c["scale"] = 1
            c["v"] = [abs(x) for x in c["v"]]
        if c["what"] == "given":
            c["pseed"] = rng.randrange(10 ** 6)
        if dist == "pearson":
            j = rng.randrange(5)
            if j == 1:      # negative skew
                c["v"] = [x if x != x else max(0.0, 100 - abs(x) ** 0.7) for x in c["v"]]
            elif j == 2:    # tail values outside the calibrated support
                c["v"] = [x * 6 if (x == x and i >= len(c["v"]) * 0.8) else (x + 40 if x == x and x > 0 else x) for i, x in enumerate(c["v"])]
                c["c1"] = c["start"] + int(len(c["v"]) / c["p"] * 0.7)
            elif j == 3:
                c["v"] = [x if x != x else (rng.choice((0.0001, 0.0004, 0.0, 0.002)) if rng.random() < 0.08 else abs(x)) for x in c["v"]]
        yield c


def gen_C06(rng, n):
    return gen_def(rng, n, "gamma")


def gen_C07(rng, n):
    return gen_def(rng, n, "pearson")


def check_params(c):
    p = c["p"]
    r = fit_params(c)
    skip_if_undefined(c, c["v"], r)
    m = need_ok(r, "fitting")
    if m:
        return m
    rw = O.rows(c["v"], p)
    i0, i1 = O.calib(len(rw), c["start"], c["c0"], c["c1"])
    for s in range(p):
        cal = [x[s] for x in rw[i0:i1]]
        if c["dist"] == "gamma":
            al, be, a = O.gamma_fit(cal)
            if a == a and a < 1e-6:
                continue
            e = (al, be)
        else:
            e = O.pearson_params(cal)
            if e is None or (e[2] != 0 and abs(e[3]) < 1e-4):
                continue
        for q, x in enumerate(e):
            if not close(r[1][q][s], x, 1e-6, 1e-9):
                return f"{c['dist']} parameter {q} of step {s} = {float(r[1][q][s])!r}, expected {x!r}"
    return None


def check_C06(c):
    if c["what"] == "params":
        return check_params(c)
    if c["what"] == "transform":
        f = compute.transform_fitted_gamma if c["dist"] == "gamma" else compute.transform_fitted_pearson
        r = call(f, A(c["v"], c["kind"], c["p"]), c["start"], c["c0"], c["c1"], PER[c["p"]])
        skip_if_undefined(c, c["v"], r)
        m = need_ok(r, "transform")
        if m:
            return m
        g = np.clip(np.asarray(r[1], dtype=float), -3.09, 3.09)
        if g.ndim != 2 and not np.all(np.isnan(g)):
            return "transform: not 2-D"
        return cmp_list(g.ravel()[:len(c["v"])], expected_index(c), "transform", 1e-5, 1e-5)
    if c["what"] == "given":
        return check_given(c)
    r = (do_spei if "pet" in c else do_spi)(c)
    skip_if_undefined(c, None, r)
    m = need_ok(r, c["what"])
    if m:
        return m
    return cmp_list(r[1], expected_index(c), ("spei" if "pet" in c else "spi") + " " + c["dist"], 1e-5, 1e-5)


check_C07 = check_C06


def check_given(c):
    """index with given parameters"""
    pr = rand_params(c)
    r = do_spi(c, pr)
    m = need_ok(r, "spi")
    if m:
        return m
    p = c["p"]
    tot = totals(c)
    if all(x != x for x in tot):
        raise Skip()
    rw = O.rows(tot, p)
    e = []
    for i, x in enumerate(tot):
        s = i % p
        if c["dist"] == "gamma":
            col = [y[s] for y in rw]
            al, be = pr["alpha"][s], pr["beta"][s]
            e.append(O.clip309(O.gamma_index(col, x, al, be)) if al > 1e-6 and be > 1e-9 else None)
        else:
            q = [float(pr[k][s]) for k in ("prob_zero", "loc", "scale", "skew")]
            end = O.pearson_end(*q[1:])
            if x == x and (abs(x - end) <= 1e-7 * (abs(end) + q[2]) or abs(x - 0.0005) < 1e-9 or (q[3] != 0 and abs(q[3]) < 1e-3)):
                e.append(None)
            else:
                e.append(O.clip309(O.pearson_index(x, *q)))
    return cmp_list(r[1], e, f"spi {c['dist']} with given parameters", 1e-5, 1e-5)


# ------------------------------------------------------------------ C08
def gen_C08(rng, n):
    for k in range(n):
        c = spi_case(rng, k, style=("gamma", "zeros", "mix", "int", "arid", "nanneg", "small")[rng.randrange(7)])
        c["params"] = rng.randrange(3) == 2
        c["pseed"] = rng.randrange(10 ** 6)
        if rng.randrange(4) == 3:
            add_pet(rng, c)
        if rng.randrange(5) == 0:
            c["v"] = [x if x != x else (100 - abs(x) ** 0.7 if x > 0 else x) for x in c["v"]]
        yield c


def check_C08(c):
    pr = rand_params(c) if c["params"] else None
    r = (do_spei if "pet" in c else do_spi)(c, pr)
    skip_if_undefined(c, None, r)
    m = need_ok(r, "index")
    if m:
        return m
    g = r[1].tolist()
    tot = totals(c)
    p = c["p"]
    rw = O.rows(tot, p)
    i0, i1 = O.calib(len(rw), c["start"], c["c0"], c["c1"])
    for s in range(p):
        idx = [i for i in range(s, len(tot), p) if tot[i] == tot[i] and g[i] == g[i]]
        if c["dist"] == "gamma":
            idx = [i for i in idx if tot[i] != 0]
        else:
            if pr is None:
                q = O.pearson_params([x[s] for x in rw[i0:i1]])
            else:
                q = [float(pr[k][s]) for k in ("prob_zero", "loc", "scale", "skew")]
            if q is None:
                continue
            end = O.pearson_end(*q[1:])
            idx = [i for i in idx if tot[i] >= 0.0005 + 1e-9 and not (
                (q[3] > 0 and tot[i] <= end + 1e-7 * (abs(end) + q[2])) or
                (q[3] < 0 and tot[i] >= end - 1e-7 * (abs(end) + q[2])))]
        idx.sort(key=lambda i: tot[i])
        for a, b in zip(idx, idx[1:]):
            if tot[b] - tot[a] <= 1e-9 * abs(tot[a]):
                continue
            if g[b] < g[a] - 1e-7:
                return f"step {s}: total {tot[a]!r} has index {g[a]!r} but the larger total {tot[b]!r} has {g[b]!r}"
    return None


# ------------------------------------------------------------------ C09
def gen_C09(rng, n):
    for k in range(n):
        c = spi_case(rng, k)
        c["what"] = ("spi", "spei", "dep", "own", "partial", "palmer", "transform", "spi")[rng.randrange(8)]
        c["pseed"] = rng.randrange(10 ** 6)
        if c["what"] in ("spei", "dep"):
            c["style"] = "x"
            add_pet(rng, c)
        if c["what"] == "partial":
            c["mask"] = rng.randint(1, 14)
        if c["what"] == "palmer":
            c.update(palmer_case(rng, k))
        if c["what"] == "transform":
            c["scale"] = 1
        yield c


OLD = {"alpha": "alphas", "beta": "betas", "skew": "skews", "scale": "scales", "loc": "locs", "prob_zero": "probabilities_of_zero"}


def as_dict(dist, t):
    return dict(zip(("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew"), t))


def check_C09(c):
    w, p = c["what"], c["p"]
    if w == "palmer":
        return check_palmer_reuse(c)
    if w == "partial":
        v = A(c["v"], c["kind"], p)
        pr = rand_params(dict(c, dist="pearson"))
        names = ("prob_zero", "loc", "scale", "skew")
        q = [pr[nm] if c["mask"] >> i & 1 else None for i, nm in enumerate(names)]
        for r in (call(compute.transform_fitted_pearson, v, c["start"], c["c0"], c["c1"], PER[p], *q),
                  do_spi(dict(c, dist="pearson"), dict(zip(names, q)))):
            if r[0] == "ok" or not isinstance(r[1], ValueError):
                return f"Pearson parameters of which only some are given ({c['mask']:04b}) are not rejected with ValueError: {r[1]!r}"
        return None
    if w == "own":
        pr = rand_params(c)
        r1 = do_spi(c, pr)
        t = c["pseed"] % p
        pr2 = {k: x.copy() for k, x in pr.items()}
        for x in pr2.values():
            x[t] = x[t] * 0.5 + 0.01
        r2 = do_spi(c, pr2)
        m = need_ok(r1, "spi") or need_ok(r2, "spi")
        if m:
            return m
        for i in range(len(c["v"])):
            if i % p != t and not close(r1[1][i], r2[1][i], 1e-9, 1e-9):
                return f"spi[{i}] of step {i % p} depends on the parameters of step {t}"
        return check_given(c) if "pet" not in c else None
    if w == "transform":
        f = compute.transform_fitted_gamma if c["dist"] == "gamma" else compute.transform_fitted_pearson
        v = lambda: A(c["v"], c["kind"], p)  # noqa
        d = call(f, v(), c["start"], c["c0"], c["c1"], PER[p])
        skip_if_undefined(c, c["v"], d)
        q = fit_params(c)
        m = need_ok(d, "transform") or need_ok(q, "fitting")
        if m:
            return m
        e = call(f, v(), c["start"], c["c0"], c["c1"], PER[p], *q[1])
        m = need_ok(e, "transform")
        return m or cmp_list(e[1], np.asarray(d[1]).ravel().tolist(), "transform with given parameters", 1e-9, 1e-9)
    f = do_spei if "pet" in c else do_spi
    d = f(c)
    skip_if_undefined(c, None, d)
    m = need_ok(d, w)
    if m:
        return m
    if "pet" in c:
        v = [x if x != x else max(x, 0.0) for x in c["v"]]
        sc = call(compute.sum_to_scale, A([x - y + 1000.0 for x, y in zip(v, c["pet"])]), c["scale"])
        if sc[0] == "ok" and np.all(np.isnan(sc[1])):
            raise Skip()
    else:
        sc = call(compute.scale_values, A(c["v"], c["kind"], p), c["scale"], PER[p])
    m = need_ok(sc, "scaling")
    if m:
        return m
    q = call(compute.gamma_parameters if c["dist"] == "gamma" else compute.pearson_parameters,
             sc[1], c["start"], c["c0"], c["c1"], PER[p])
    m = need_ok(q, "fitting")
    if m:
        return m
    pr = as_dict(c["dist"], q[1])
    e = f(c, pr)
    m = need_ok(e, w + " with parameters")
    if m:
        return m
    m = cmp_list(e[1], d[1].tolist(), w + " with its own parameters", 1e-9, 1e-9)
    if m or w != "dep":
        return m
    e = f(c, {OLD[k]: x for k, x in pr.items()})
    m = need_ok(e, "spei with deprecated keys")
    return m or cmp_list(e[1], d[1].tolist(), "spei with deprecated keys", 1e-9, 1e-9)


# ------------------------------------------------------------------ C10
def gen_C10(rng, n):
    fs = ("spi", "spei", "pnp", "sum", "scale", "gpar", "ppar", "tg", "tp", "pet", "eto", "harg", "palmer", "lm", "pci", "t366", "tgreg", "rs",
          "spi_p", "spei_p", "tg_p", "tp_p", "count", "sign")
    for k in range(n):
        c = spi_case(rng, k, style=STYLES[rng.randrange(len(STYLES))], p=12 if rng.randrange(5) else None)
        c["what"] = fs[rng.randrange(len(fs))]
        c["pseed"] = rng.randrange(10 ** 6)
        c["deprecated"] = (k // 3) % 3
        c["dist"] = rng.choice(("gamma", "pearson"))
        if rng.randrange(2):
            years = max(6, len(c["v"]) // c["p"])
            c["v"] = series(rng, years * c["p"], c["style"], c["p"])
            c["kind"] = rng.choice(("1d", "2d", "2d", "strided", "f"))
        if c["kind"] == "ro":
            c["kind"] = "1d"
        c["pet"] = [abs(rng.gauss(60, 40)) for _ in c["v"]]
        if c["style"] == "nans":
            c["pet"][3] = NAN
        yield c


def check_C10(c):
    w, p = c["what"], c["p"]
    v = A(c["v"], c["kind"], p)
    pet = A(c["pet"], c["kind"], p)
    arrays = {"first array": v}
    per = PER[p]
    st, c0, c1 = c["start"], c["c0"], c["c1"]
    D = DIST[c["dist"]]
    pr = None
    flat = A(c["v"])
    if w in ("spi_p", "spei_p", "tg_p", "tp_p"):
        cc = dict(c, dist={"tg_p": "gamma", "tp_p": "pearson"}.get(w, c["dist"]))
        pr = rand_params(cc)
        for k, x in pr.items():
            arrays["parameter " + k] = x
        if c.get("deprecated") and w == "spei_p":
            pr = {OLD[k] if c["deprecated"] == 1 or i % 2 else k: x for i, (k, x) in enumerate(pr.items())}
    if w in ("spi", "spi_p"):
        f = lambda: indices.spi(v, c["scale"], D, st, c0, c1, per, pr)  # noqa
    elif w in ("spei", "spei_p"):
        arrays["pet"] = pet
        f = lambda: indices.spei(v, pet, c["scale"], D, per, st, c0, c1, pr)  # noqa
    elif w == "pnp":
        arrays = {"first array": flat}
        f = lambda: indices.percentage_of_normal(flat, c["scale"], st, st, st + max(0, len(c["v"]) // p - 1), per)  # noqa
    elif w == "sum":
        arrays = {"first array": flat}
        f = lambda: compute.sum_to_scale(flat, c["scale"])  # noqa
    elif w == "scale":
        f = lambda: compute.scale_values(v, c["scale"], per)  # noqa
    elif w == "gpar":
        f = lambda: compute.gamma_parameters(v, st, c0, c1, per)  # noqa
    elif w == "ppar":
        f = lambda: compute.pearson_parameters(v, st, c0, c1, per)  # noqa
    elif w == "tg":
        f = lambda: compute.transform_fitted_gamma(v, st, c0, c1, per)  # noqa
    elif w == "tp":
        f = lambda: compute.transform_fitted_pearson(v, st, c0, c1, per)  # noqa
    elif w == "tg_p":
        f = lambda: compute.transform_fitted_gamma(v, st, c0, c1, per, pr["alpha"], pr["beta"])  # noqa
    elif w == "tp_p":
        f = lambda: compute.transform_fitted_pearson(v, st, c0, c1, per, pr["prob_zero"], pr["loc"], pr["scale"], pr["skew"])  # noqa
    elif w in ("pet", "eto"):
        t = A([x if x != x else x / 4 - 10 for x in c["v"]], c["kind"] if p == 12 else "1d", 12)
        arrays = {"temperature": t}
        if w == "pet":
            lat = np.array([40.0, 41.0])
            arrays["latitude"] = lat
            f = lambda: indices.pet(t, lat, st)  # noqa
        else:
            f = lambda: eto.eto_thornthwaite(t, 40.0, st)  # noqa
    elif w == "harg":
        n = len(c["v"])
        n = n if n < 800 else 366 * 2
        kd = "2d" if n % 366 == 0 else "1d"
        t = A([x if x != x else x / 4 - 10 for x in c["v"][:n]], kd, 366)
        lo, hi = t - 5, t + 5
        arrays = {"tmin": lo, "tmax": hi, "tmean": t}
        f = lambda: eto.eto_hargreaves(lo, hi, t, 40.0)  # noqa
    elif w == "palmer":
        pc = palmer_case(random.Random(c["pseed"]), c["pseed"] % 7)
        if c["pseed"] % 3 == 0:
            pc["P"][5] = -1.0
        P, E = A(pc["P"], "2d" if c["pseed"] % 2 else "1d"), A(pc["E"], "2d" if c["pseed"] % 2 else "1d")
        arrays = {"precips": P, "pet": E}
        fp = None
        if c["pseed"] % 2:
            fp = {k: np.array([0.9] * 12) for k in ("alpha", "beta", "gamma", "delta")}
            for k, x in fp.items():
                arrays["parameter " + k] = x
        f = lambda: palmer.pdsi(P, E, pc["awc"], pc["start"], pc["start"] + pc["i0"], pc["start"] + pc["i1"] - 1, fp)  # noqa
    elif w == "lm":
        arrays = {"first array": flat}
        f = lambda: lmoments.fit(flat)  # noqa
    elif w == "pci":
        y = A(series(random.Random(c["pseed"]), 365 + c["pseed"] % 2, "zeros"))
        arrays = {"first array": y}
        f = lambda: indices.pci(y)  # noqa
    elif w == "t366":
        n = 365 * 3 + (1 if any(O.isleap(st + i) for i in range(3)) else 0) - c["pseed"] % 40
        y = A(series(random.Random(c["pseed"]), n, "nans"))
        arrays = {"first array": y}
        f = lambda: utils.transform_to_366day(y, st, 3)  # noqa
    elif w == "tgreg":
        y = A(series(random.Random(c["pseed"]), 732, "nans"))
        arrays = {"first array": y}
        f = lambda: utils.transform_to_gregorian(y, st)  # noqa
    elif w == "rs":
        f = lambda: utils.reshape_to_2d(v, p)  # noqa
    elif w == "count":
        f = lambda: utils.count_zeros_and_non_missings(v)  # noqa
    elif w == "sign":
        arrays["pet"] = pet
        f = lambda: utils.sign_change(v, pet)  # noqa
    before = {k: (x.copy(), x.base.copy() if isinstance(x.base, np.ndarray) else None) for k, x in arrays.items()}
    prk = dict(pr) if pr is not None else None
    r1 = call(f)
    for k, x in arrays.items():
        b, bb = before[k]
        if x.tobytes() != b.tobytes() or x.shape != b.shape:
            i = next((j for j, (s, t) in enumerate(zip(x.ravel().tolist(), b.ravel().tolist())) if not (s == t or (s != s and t != t))), 0)
            return f"{w}: the {k} was modified (element {i}: {b.ravel()[i]!r} became {x.ravel()[i]!r})"
        if bb is not None and isinstance(x.base, np.ndarray) and x.base.tobytes() != bb.tobytes():
            return f"{w}: the memory of the {k} was modified"
    if pr is not None and (set(pr) != set(prk) or any(pr[k] is not prk[k] for k in prk)):
        return f"{w}: the dictionary of parameters was modified"
    if r1[0] != "ok":
        if isinstance(r1[1], ValueError):
            raise Skip()
        return need_ok(r1, w)
    keep = copy.deepcopy(r1[1])
    r2 = call(f)
    m = need_ok(r2, w + " (second call)")
    if m:
        return m
    for a, b in zip(flat_results(keep), flat_results(r2[1])):
        m = cmp_list(b, a.ravel().tolist(), w + ": the second call's result", 0, 0)
        if m:
            return m
    return None


def flat_results(x):
    if isinstance(x, dict):
        x = [x[k] for k in sorted(x)]
    if isinstance(x, (tuple, list)):
        out = []
        for y in x:
            out += flat_results(y)
        return out
    if x is None:
        return []
    return [np.asarray(x, dtype=float)]


# ------------------------------------------------------------------ C11
def gen_C11(rng, n):
    for k in range(n):
        p = 366 if rng.randrange(6) == 5 else 12
        years = rng.choice((1, 2, 3, 5, 12, 20)) if p == 12 else rng.choice((1, 2, 3, 5))
        partial = rng.choice((0, 0, rng.randint(1, p - 1)))
        m = years * p - partial if years > 1 else years * p
        start = rng.choice((1895, 1990, 2000))
        full = m // p
        c0 = start + rng.randint(0, full - 1) if rng.randrange(3) else start
        c1 = rng.randint(c0, start + full - 1) if rng.randrange(4) else start + full - 1
        scale = rng.choice((1, 1, 2, 3, 6, 12, 18)) if p == 12 else rng.choice((1, 10, 90))
        yield dict(v=series(rng, m, STYLES[rng.randrange(len(STYLES))], p), p=p, start=start, c0=c0, c1=c1, scale=scale)


def check_C11(c):
    r = call(indices.percentage_of_normal, A(c["v"]), c["scale"], c["start"], c["c0"], c["c1"], PER[c["p"]])
    m = need_ok(r, "percentage_of_normal")
    if m:
        return m
    e = O.pnp(c["v"], c["scale"], c["start"], c["c0"], c["c1"], c["p"])
    big = max([abs(x) for x in c["v"] if x == x] + [0])
    for i, x in enumerate(e):   # normals that are zero up to rounding
        if x == x and abs(x) > 1e6:
            e[i] = None
    if any(x == x and x < 0 for x in c["v"]):
        e = [None if x != x else x for x in e]
    if np.ndim(r[1]) != 1:
        return "percentage_of_normal: not 1-D"
    return cmp_list(r[1], e, "percentage_of_normal", 1e-7, 1e-9 * (1 + 0 * big))


# ------------------------------------------------------------------ C12
def gen_C12(rng, n):
    for k in range(n):
        m = 365 + rng.randrange(2)
        style = rng.randrange(5)
        if style == 0:
            v = series(rng, m, "zeros")
        elif style == 1:
            v = [0.0] * m
            i = rng.choice((0, 30, 31, 58, 59, 60, 89, 90, 91, 333, 334, 335, m - 1, rng.randrange(m)))
            v[i] = 10.0
            v[rng.choice((i, (i + 1) % m))] += 5.0
        elif style == 2:
            md = O.month_days(m == 366)
            v = [30.0 / d for d in md for _ in range(d)]
        elif style == 3:
            v = [0.0] * m
            for i in range(5):
                v[rng.randrange(m)] = rng.uniform(1, 50)
        else:
            v = [rng.expovariate(0.1) for _ in range(m)]
        yield dict(v=v, kind=rng.choice(("1d", "strided", "ro")), f=rng.choice((2.0, 0.1, 25.4)))
    for b in (31, 59, 60, 90, 91, 120, 121, 151, 152, 181, 182, 212, 213, 243, 244, 273, 274, 304, 305, 334, 335):
        for m in (365, 366):
            v = [0.0] * m
            v[b - 1] = 3.0
            v[b] = 4.0
            yield dict(v=v, kind="1d", f=2.0)


def check_C12(c):
    r = call(indices.pci, A(c["v"], c["kind"]))
    m = need_ok(r, "pci")
    if m:
        return m
    g = np.asarray(r[1]).ravel().tolist()
    if len(g) != 1:
        return "pci: not a single value"
    m = cmp_list(g, [O.pci(c["v"])], "pci", 1e-9, 1e-9)
    if m:
        return m
    if sum(c["v"]) > 0:
        if not (100 / 12 - 1e-6 <= g[0] <= 100 + 1e-6):
            return f"pci = {g[0]}, outside 100/12..100"
        r2 = call(indices.pci, A([x * c["f"] for x in c["v"]]))
        m = need_ok(r2, "pci")
        return m or cmp_list(r2[1], g, "pci of scaled rainfall", 1e-9, 1e-9)
    return None


# ------------------------------------------------------------------ C13
def gen_C13(rng, n):
    for k in range(n):
        m = rng.choice((12, 13, 24, 35, 60, 61, 120, 145, 240)) if rng.randrange(5) else 12 * rng.randint(1, 30)
        base = rng.choice((5, 12, 25, -5, -40))
        t = [base + 12 * math.sin(i * math.pi / 6) + rng.gauss(0, 3) for i in range(m)]
        if base == -40:
            t = [min(x, 0.0) for x in t]
        if rng.randrange(3) == 0:
            t = [NAN if (i >= 12 and rng.random() < 0.1) else x for i, x in enumerate(t)]
        if rng.randrange(7) == 0:
            t = [0.0 if rng.random() < 0.2 else x for x in t]
        lat = rng.choice((-90.0, 90.0, 0.0, -66.6, 66.6, 23.45, rng.uniform(-90, 90), rng.uniform(-90, 90)))
        start = rng.choice((1895, 1896, 1899, 1900, 1999, 2000, 2001, 2003, 2096, 2100, 2400, 1600))
        yield dict(t=t, lat=lat, start=start, kind="2d" if m % 12 == 0 and rng.randrange(2) else rng.choice(("1d", "strided", "ro", "rev")),
                   f=("pet", "eto")[rng.randrange(2)])


def check_C13(c):
    f = indices.pet if c["f"] == "pet" else eto.eto_thornthwaite
    r = call(f, A(c["t"], c["kind"]), c["lat"], c["start"])
    m = need_ok(r, c["f"])
    if m:
        return m
    if np.ndim(r[1]) != 1:
        return "PET: not 1-D"
    m = cmp_list(r[1], O.thornthwaite(c["t"], c["lat"], c["start"]), "Thornthwaite PET", 1e-8, 1e-9)
    if m:
        return m
    for i, x in enumerate(r[1].tolist()):
        if x < 0:
            return f"PET[{i}] = {x} < 0"
    return None


# ------------------------------------------------------------------ C14
def gen_C14(rng, n):
    for d in range(1, 367):
        yield dict(what="dec", d=d)
    lats = [-90.0, 90.0, 0.0, 66.5, -66.5, 66.6, -66.55, 89.999, 45.0, 1e-9] + [rng.uniform(-90, 90) for _ in range(max(4, n // 12))]
    for la in lats:
        yield dict(what="lat", lat=la)
    for la in lats[:max(6, n // 20)]:
        yield dict(what="api", lat=la)


def check_C14(c):
    dec = getattr(eto, "_solar_declination", None)
    ang = getattr(eto, "_sunset_hour_angle", None)
    day = getattr(eto, "_daylight_hours", None)
    mon = getattr(eto, "_monthly_mean_daylight_hours", None)
    lim = math.radians(23.45)
    if c["what"] == "dec":
        if dec is None:
            raise Skip()
        r = call(dec, c["d"])
        m = need_ok(r, "solar declination")
        if m:
            return m
        if not -lim <= r[1] <= lim:
            return f"declination of day {c['d']} = {r[1]!r}, beyond 23.45 degrees"
        if not close(r[1], O.declination(c["d"]), 1e-9, 1e-12):
            return f"declination of day {c['d']} = {r[1]!r}, expected {O.declination(c['d'])!r}"
        return None
    lat = math.radians(c["lat"])
    if c["what"] == "api":
        r = call(eto.eto_thornthwaite, A([10.0 + i % 7 for i in range(24)]), c["lat"], 1999)
        m = need_ok(r, "eto_thornthwaite")
        if m:
            return m
        m = cmp_list(r[1], O.thornthwaite([10.0 + i % 7 for i in range(24)], c["lat"], 1999), "PET", 1e-8, 1e-9)
        if m:
            return m
        t = A([10.0] * 366)
        r = call(eto.eto_hargreaves, t - 4, t + 4, t, c["lat"])
        return need_ok(r, "eto_hargreaves") or cmp_list(r[1], O.hargreaves([6.0] * 366, [14.0] * 366, [10.0] * 366, c["lat"]), "Hargreaves", 1e-7, 1e-7)
    if dec is None or ang is None or day is None:
        raise Skip()
    for d in list(range(1, 367, 7)) + [80, 172, 173, 355, 356, 366]:
        e = call(dec, d)
        m = need_ok(e, "solar declination")
        if m:
            return m
        w, w2 = call(ang, lat, e[1]), call(ang, -lat, e[1])
        m = need_ok(w, f"sunset hour angle at {c['lat']}, day {d}") or need_ok(w2, f"sunset hour angle at {-c['lat']}, day {d}")
        if m:
            return m
        if not 0 <= w[1] <= math.pi:
            return f"sunset hour angle {w[1]!r} at {c['lat']}, day {d}"
        h, h2 = call(day, w[1]), call(day, w2[1])
        m = need_ok(h, "daylight hours") or need_ok(h2, "daylight hours")
        if m:
            return m
        if not -1e-12 <= h[1] <= 24 + 1e-12:
            return f"daylight {h[1]!r} hours"
        if not close(h[1] + h2[1], 24.0, 1e-9, 1e-9):
            return f"day lengths at +-{c['lat']} on day {d} add up to {h[1] + h2[1]!r}"
        ex = O.daylight(lat, d)
        if not close(h[1], ex, 1e-7, 1e-7):
            return f"daylight at {c['lat']} on day {d} = {h[1]!r}, expected {ex!r}"
    if mon is not None:
        for leap in (False, True):
            r = call(mon, lat, leap)
            m = need_ok(r, "monthly mean daylight") or cmp_list(r[1], O.mean_daylight(lat, leap), "monthly mean daylight", 1e-9, 1e-9)
            if m:
                return m
    return None


# ------------------------------------------------------------------ C15
def gen_C15(rng, n):
    for k in range(n):
        m = rng.choice((1, 59, 60, 365, 366, 367, 500, 732, 800))
        t = [rng.gauss(12, 9) for _ in range(m)]
        lo = [x - rng.uniform(0, 9) for x in t]
        hi = [x + rng.uniform(0, 9) for x in t]
        if rng.randrange(3) == 0:
            for a in (t, lo, hi):
                for i in range(m):
                    if rng.random() < 0.04:
                        a[i] = NAN
        if rng.randrange(4) == 0:
            for i in range(0, m, 5):
                hi[i] = lo[i]
        if rng.randrange(5) == 0:
            for i in range(0, m, 9):
                hi[i] = lo[i] - 1
        yield dict(t=t, lo=lo, hi=hi, lat=rng.choice((-90.0, 90.0, 0.0, rng.uniform(-90, 90), rng.uniform(-66, 66))),
                   kind="2d" if m % 366 == 0 and rng.randrange(2) else "1d", dep=rng.randrange(4) == 1, j=rng.randrange(m))


def check_C15(c):
    a = lambda x: A(x, c["kind"], 366)  # noqa
    r = call(eto.eto_hargreaves, a(c["lo"]), a(c["hi"]), a(c["t"]), c["lat"])
    m = need_ok(r, "eto_hargreaves")
    if m:
        return m
    if np.ndim(r[1]) != 1:
        return "Hargreaves: not 1-D"
    m = cmp_list(r[1], O.hargreaves(c["lo"], c["hi"], c["t"], c["lat"]), "Hargreaves PET", 1e-7, 1e-7)
    if m or not c["dep"]:
        return m
    lo, hi, t = list(c["lo"]), list(c["hi"]), list(c["t"])
    j = c["j"]
    lo[j], hi[j], t[j] = 0.0, 30.0, 20.0
    r2 = call(eto.eto_hargreaves, a(lo), a(hi), a(t), c["lat"])
    m = need_ok(r2, "eto_hargreaves")
    e = r[1].tolist()
    e[j] = None
    return m or cmp_list(r2[1], e, "Hargreaves PET after changing another day", 0, 0)


# ------------------------------------------------------------------ C16, C17
def palmer_case(rng, k, years=None):
    years = years or rng.choice((4, 6, 10, 25))
    start = rng.choice((1895, 1950, 1999))
    n = 12 * years
    wet = rng.choice((0.6, 1.0, 1.6))
    P = [rng.gammavariate(1.5, 1.6 * wet) for _ in range(n)]
    E = [max(0.0, 3 + 2.8 * math.sin((i % 12 - 3) * math.pi / 6) + rng.gauss(0, 0.4)) for i in range(n)]
    if rng.randrange(3) == 1:
        P = [0.0 if rng.random() < 0.3 else x for x in P]
    if rng.randrange(4) == 2:   # long spells
        for i in range(n):
            P[i] *= 2.2 if (i // 18) % 2 else 0.3
    i0 = rng.randint(0, max(0, years - 3))
    i1 = rng.randint(min(years, i0 + 2), years)
    if rng.randrange(3) == 0:
        i0, i1 = 0, years
    return dict(P=P, E=E, awc=rng.choice((1.0, 1.5, 3.0, 6.0, 10.0, rng.uniform(1, 12))), start=start, i0=i0, i1=i1, years=years)


def targeted_palmer(rng, k):
    """coefficients alpha = 1, rest 0 make z a function of P - PET: any sequence of z can be had after the calibration years"""
    cal = 8
    years = cal + rng.choice((6, 12, 25))
    n = 12 * years
    E = [max(0.3, 3 + 2.5 * math.sin((i % 12 - 3) * math.pi / 6)) + 3 for i in range(n)]
    P = [rng.gammavariate(4, 1.5) for _ in range(n)]
    coef = [[1.0] * 12, [0.0] * 12, [0.0] * 12, [0.0] * 12]
    awc = rng.choice((3.0, 6.0))
    K = palmer_K(P, E, awc, cal, coef)
    z = []
    while len(z) < n - 12 * cal:
        m = rng.randrange(8)
        sgn = rng.choice((-1, 1))
        if m == 0:
            z += [sgn * rng.uniform(1.5, 4) for _ in range(rng.randint(2, 8))]
        elif m == 1:   # very slow abatement of what a strong spell left
            z += [sgn * rng.uniform(2, 4) for _ in range(6)]
            z += [sgn * (0.15 - rng.uniform(0.0005, 0.004)) for _ in range(rng.choice((10, 45, 70)))]
        elif m == 2:   # abatement that fizzles out
            z += [sgn * 3.0] * 4 + [-sgn * 0.3, sgn * 0.7, -sgn * 0.2, sgn * 1.0]
        elif m == 3:   # end of a spell and start of the opposite one
            z += [sgn * 3.0] * 4 + [-sgn * rng.uniform(0.5, 3) for _ in range(6)]
        elif m == 4:
            z += [rng.uniform(-0.4, 0.4) for _ in range(rng.randint(3, 15))]
        elif m == 5:
            z += [rng.gauss(0, 2) for _ in range(rng.randint(5, 25))]
        elif m == 6:   # alternating incipient spells
            z += [s * rng.uniform(0.8, 2.4) for s in (1, -1, 1, -1, 1, 1, -1, -1)]
        else:
            z += [rng.uniform(-1.2, 1.2) for _ in range(rng.randint(5, 25))]
    for i in range(12 * cal, n):
        t = z[i - 12 * cal] / K[i % 12]
        P[i] = max(0.0, E[i] + t)
    return dict(P=P, E=E, awc=awc, start=1950, i0=0, i1=cal, years=years, coef=coef)


def palmer_K(P, E, awc, cal, coef):
    bal = O.palmer_balance(P, E, awc)
    s = O.palmer_coefficients(E, bal, 0, cal)[4]
    psum = [math.fsum(P[12 * y + m] for y in range(cal)) for m in range(12)]
    trat = [(s["pet"][m] + s["r"][m] + s["ro"][m]) / (psum[m] + s["tl"][m]) for m in range(12)]
    d = [math.fsum(abs(P[12 * y + m] - E[12 * y + m]) for y in range(cal)) / cal for m in range(12)]
    kh = [1.5 * math.log10((trat[m] + 2.8) / d[m]) + 0.5 for m in range(12)]
    tot = math.fsum(a * b for a, b in zip(d, kh))
    return [17.67 * x / tot for x in kh]


def gen_C16(rng, n):
    for k in range(n):
        yield dict(palmer_case(rng, k), what=("data", "coef")[rng.randrange(2)])
    for k in range(n * 20):
        awc = rng.choice((1.0, 2.0, 6.0, rng.uniform(1, 12)))
        cap = awc - 1
        yield dict(what="step", p=rng.choice((0.0, rng.uniform(0, 12), rng.uniform(0, 2))), pet=rng.choice((0.0, rng.uniform(0, 9), rng.uniform(0, 1))),
                   ss=rng.choice((0.0, 1.0, rng.random())), su=rng.choice((0.0, cap, cap * rng.random())), awc=awc)


def check_C16(c):
    e = 1e-9
    if c["what"] == "step":
        f = getattr(palmer, "_calc_recharge", None)
        if f is None:
            raise Skip()
        r = call(f, c["p"], c["pet"], c["ss"], c["su"], c["awc"])
        m = need_ok(r, "water balance of a month")
        if m:
            return m
        et, tl, rr, ro, sss, ssu = r[1]
        cap = max(c["awc"] - 1, 0)
        x = f"p={c['p']} pet={c['pet']} ss={c['ss']} su={c['su']} awc={c['awc']}: et={et} loss={tl} recharge={rr} runoff={ro} ss'={sss} su'={ssu}"
        if abs(c["p"] - (et + rr + ro - tl)) > e:
            return "water is not conserved: " + x
        if abs((sss + ssu) - (c["ss"] + c["su"]) - (rr - tl)) > e:
            return "the change in storage is not recharge - loss: " + x
        if not (-e <= sss <= 1 + e and -e <= ssu <= cap + e):
            return "storage out of bounds: " + x
        if not (-e <= et <= c["pet"] + e and rr >= -e and ro >= -e and tl >= -e):
            return "a term is out of bounds: " + x
        if rr > cap + 1 - c["ss"] - c["su"] + e or ro > c["ss"] + c["su"] + c["p"] + e:
            return "recharge exceeds its potential: " + x
        g = getattr(palmer, "_calc_potential_loss", None)
        if g is not None:
            q = call(g, c["pet"], c["ss"], c["su"], c["awc"])
            m = need_ok(q, "potential loss")
            if m:
                return m
            if tl > q[1] + e or q[1] < -e:
                return f"loss {tl} exceeds its potential {q[1]}: " + x
        o = O.palmer_month(c["p"], c["pet"], c["ss"], c["su"], c["awc"])
        return cmp_list(r[1], [o["et"], o["tl"], o["r"], o["ro"], o["ss"], o["su"]], "(et, loss, recharge, runoff, ss, su) " + x, 1e-9, 1e-9)
    bal = O.palmer_balance(c["P"], c["E"], c["awc"])
    c0, c1 = c["start"] + c["i0"], c["start"] + c["i1"] - 1
    if c["what"] == "coef":
        r = call(palmer.pdsi, A(c["P"]), A(c["E"]), c["awc"], c["start"], c0, c1)
        m = need_ok(r, "pdsi")
        if m:
            return m
        ref = O.palmer_coefficients(c["E"], bal, c["i0"], c["i1"])
        for k, x in zip(("alpha", "beta", "gamma", "delta"), ref):
            m = cmp_list(r[1][4][k], x, k, 1e-7, 1e-9)
            if m:
                return m
        return None
    ini, wb = getattr(palmer, "_initialize_data", None), getattr(palmer, "_calc_water_balances", None)
    if ini is None or wb is None:
        raise Skip()
    r = call(ini, A(c["P"]), A(c["E"]), c["awc"], c["start"], c0, c1)
    if r[0] != "ok" or not isinstance(r[1], dict) or call(wb, r[1])[0] != "ok":
        raise Skip()
    d = r[1]
    names = dict(sp="spdat", pl="pldat", pr="prdat", r="rdat", tl="tldat", et="etdat", ro="rodat", ss="sssdat", su="ssudat")
    if any(x not in d for x in names.values()):
        raise Skip()
    g = {k: np.asarray(d[x]).ravel().tolist() for k, x in names.items()}
    ss, su = 1.0, max(c["awc"] - 1, 0)
    for i in range(len(c["P"])):
        x = f"month {i}: " + " ".join(f"{k}={v[i]!r}" for k, v in g.items()) + f" p={c['P'][i]!r}"
        if abs(c["P"][i] - (g["et"][i] + g["r"][i] + g["ro"][i] - g["tl"][i])) > 1e-8:
            return "water is not conserved, " + x
        if abs(g["sp"][i] - (ss + su)) > 1e-8:
            return f"the month does not start from the storage {ss + su!r} the month before ended with, " + x
        if abs(g["ss"][i] + g["su"][i] - ss - su - g["r"][i] + g["tl"][i]) > 1e-8:
            return "the change in storage is not recharge - loss, " + x
        ss, su = g["ss"][i], g["su"][i]
        if g["tl"][i] > g["pl"][i] + 1e-8 or g["r"][i] > g["pr"][i] + 1e-8:
            return "a term exceeds its potential, " + x
    for k in names:
        m = cmp_list(g[k], [b[k] for b in bal], "monthly " + k, 1e-8, 1e-8)
        if m:
            return m
    return None


def gen_C17(rng, n):
    for k in range(n):
        if rng.randrange(2):
            yield targeted_palmer(rng, k)
        else:
            yield palmer_case(rng, k // 2)


def run_palmer(c, fp=None):
    kind = "2d" if c["years"] % 2 else "1d"
    return call(palmer.pdsi, A(c["P"], kind), A(c["E"], kind), c["awc"], c["start"], c["start"] + c["i0"], c["start"] + c["i1"] - 1, fp)


def check_C17(c):
    fp = None
    if c.get("coef"):
        fp = dict(zip(("alpha", "beta", "gamma", "delta"), [np.array(x) for x in c["coef"]]))
    r = run_palmer(c, fp)
    m = need_ok(r, "pdsi")
    if m:
        return m
    try:
        pd, ph, pm, z, co, margin = O.palmer(c["P"], c["E"], c["awc"], c["i0"], c["i1"], c.get("coef"))
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Skip()
    if any(x != x or abs(x) > 1e6 for x in z):
        raise Skip()
    m = cmp_list(r[1][3], z, "Z-index", 1e-7, 1e-8)
    if m:
        return m
    if margin < 1e-9:
        raise Skip()
    for got, ex, nm in ((r[1][0], pd, "PDSI"), (r[1][1], ph, "PHDI"), (r[1][2], pm, "PMDI")):
        m = cmp_list(got, ex, nm, 1e-6, 1e-7)
        if m:
            return m
    return None


def check_palmer_reuse(c):
    r = run_palmer(c)
    m = need_ok(r, "pdsi")
    if m:
        return m
    fp = {k: np.array(x) for k, x in r[1][4].items()}
    how = c["pseed"] % 3
    give = fp if how == 0 else {k: (x.tolist() if how == 1 else tuple(x.tolist())) for k, x in fp.items()}
    r2 = run_palmer(c, give)
    m = need_ok(r2, "pdsi with coefficients")
    if m:
        return m
    for i, nm in enumerate(("PDSI", "PHDI", "PMDI", "Z")):
        m = cmp_list(r2[1][i], np.asarray(r[1][i]).tolist(), nm + " with returned coefficients", 1e-9, 1e-9)
        if m:
            return m
    for k in fp:
        m = cmp_list(r2[1][4][k], fp[k].tolist(), k + " returned", 0, 0)
        if m:
            return m
    # other coefficients are really used
    fp2 = {k: x * 0.9 + 0.03 for k, x in fp.items()}
    r3 = run_palmer(c, fp2)
    m = need_ok(r3, "pdsi with coefficients")
    if m:
        return m
    try:
        ref = O.palmer(c["P"], c["E"], c["awc"], c["i0"], c["i1"], [fp2[k].tolist() for k in ("alpha", "beta", "gamma", "delta")])
    except (ZeroDivisionError, ValueError):
        raise Skip()
    for k in fp2:
        m = cmp_list(r3[1][4][k], fp2[k].tolist(), k + " returned", 0, 0)
        if m:
            return m
    return cmp_list(r3[1][3], ref[3], "Z-index with given coefficients", 1e-7, 1e-8)


# ------------------------------------------------------------------ C18
def gen_C18(rng, n):
    for k in range(n):
        m = rng.choice((4, 5, 6, 10, 30, 100)) if rng.randrange(6) else rng.choice((0, 1, 2, 3))
        v = [rng.gammavariate(1.5, 30) for _ in range(m)]
        if rng.randrange(4) == 1:
            v = [100 - x for x in v]
        if rng.randrange(4) == 2:
            v = [0.0 if rng.random() < 0.3 else x for x in v]
        if rng.randrange(4) == 3:
            v = [rng.gauss(10, 4) for _ in v]
        if rng.randrange(9) == 4:
            v = [x if i else x * 500 for i, x in enumerate(v)]
        if rng.randrange(11) == 5:
            h = [abs(rng.gauss(0, 3)) for _ in range(max(2, m // 2))]
            v = [50 + x for x in h] + [50 - x for x in h]
        if rng.randrange(10) == 7:
            v = [0.0] * m
        v += [NAN] * rng.choice((0, 0, 1, 3))
        rng.shuffle(v)
        yield dict(v=v, a=rng.uniform(-20, 50), b=rng.uniform(0.1, 9), pseed=rng.randrange(10 ** 6))


def check_C18(c):
    v = c["v"]
    r = call(lmoments.fit, A(v))
    obs = [x for x in v if x == x]
    if len(obs) < 4 or all(x == 0 for x in obs):
        if r[0] == "ok" or not isinstance(r[1], ValueError):
            return f"fit of {len(obs)} observed values {'(all zero)' if obs else ''} is not rejected with ValueError: {r[1]!r}"
        return None
    e = O.pearson_fit(v)
    if e is None:
        raise Skip()
    l1, l2, l3 = O.lmom(v)
    if l2 < 1e-5 * abs(l1):
        raise Skip()
    m = need_ok(r, "fit")
    if m:
        return m
    d = r[1]
    t3 = abs(l3 / l2)
    near = abs(t3 - 1e-6) < 1e-8 or abs(t3 - 1 / 3) < 1e-9
    if not near:
        tol = 1e-7 if t3 > 1e-3 else 1e-4
        m = cmp_list([d["loc"], d["scale"], d["skew"]], e, "(loc, scale, skew)", tol, 1e-9)
        if m and not (t3 < 1e-9):
            return m
    if not close(d["loc"], math.fsum(obs) / len(obs), 1e-9, 1e-9):
        return f"location {d['loc']!r} is not the mean"
    if t3 > 2e-6 and (d["skew"] > 0) != (l3 > 0):
        return f"skew {d['skew']!r} with third L-moment {l3!r}"
    if t3 < 1e-4:
        return None
    rng = random.Random(c["pseed"])
    w = list(v)
    rng.shuffle(w)
    for name, x, f in (("order", w, (d["loc"], d["scale"], d["skew"])),
                       ("missing", [y for y in v if y == y], (d["loc"], d["scale"], d["skew"])),
                       ("shift", [y + c["a"] for y in v], (d["loc"] + c["a"], d["scale"], d["skew"])),
                       ("factor", [y * c["b"] for y in v], (d["loc"] * c["b"], d["scale"] * c["b"], d["skew"]))):
        q = call(lmoments.fit, A(x))
        m = need_ok(q, "fit (" + name + ")")
        m = m or cmp_list([q[1]["loc"], q[1]["scale"], q[1]["skew"]], f, f"(loc, scale, skew) after {name} change", 1e-6, 1e-8)
        if m:
            return m
    return None


# ------------------------------------------------------------------ C21
def gen_C21(rng, n):
    for k in range(n):
        y = rng.choice((1800, 1895, 1899, 1900, 1999, 2000, 2096, rng.randint(1, 2500)))
        yield dict(y=y, m=rng.choice((1, 12, rng.randint(1, 12))), n=rng.choice((0, 1, 2, 13, 60, 400)),
                   u=rng.choice((1800, 1900, y, 1, rng.randint(1, 2500))), dflt=rng.randrange(5) == 0)


def check_C21(c):
    if c["dflt"]:
        c = dict(c, m=1, u=1800)
        r = call(utils.compute_days, c["y"], c["n"])
    else:
        r = call(utils.compute_days, c["y"], c["n"], c["m"], c["u"])
    m = need_ok(r, "compute_days")
    if m:
        return m
    e = []
    for i in range(c["n"]):
        q = c["m"] - 1 + i
        e.append(O.day_number(c["y"] + q // 12, q % 12 + 1) - O.day_number(c["u"], 1))
    if not np.issubdtype(np.asarray(r[1]).dtype, np.integer):
        return "compute_days: not integers"
    return cmp_list(r[1], e, f"compute_days({c['y']}, {c['n']}, {c['m']}, {c['u']})", 0, 0)


# ------------------------------------------------------------------ C22
def gen_C22(rng, n):
    k = 0
    while k < n:
        for i in range(len(INVALID)):
            yield dict(what="bad", i=i, seed=rng.randrange(10 ** 6))
            k += 1
        for i in range(len(VALID)):
            yield dict(what="good", i=i, seed=rng.randrange(10 ** 6))
            k += 1


def _v(rng, n):
    return A([rng.uniform(1, 99) for _ in range(n)])


def _bad_lat(rng):
    return rng.choice((90.0001, -90.0001, 91.0, -180.0, 1e6, NAN, None, 90 + 10 * rng.random() + 1e-9, float("inf")))


M, DLY = PER[12], PER[366]
G, PE = DIST["gamma"], DIST["pearson"]
INVALID = [
    ("spi of a 3-D array", lambda r: indices.spi(_v(r, 240).reshape(2, 10, 12), 1, G, 2000, 2000, 2009, M)),
    ("spi with an unknown periodicity", lambda r: indices.spi(_v(r, 240), 1, G, 2000, 2000, 2009, r.choice(("monthly", None, 12, "x")))),
    ("spi with an unknown distribution", lambda r: indices.spi(_v(r, 240), 1, r.choice(("gamma", None, 3)), 2000, 2000, 2009, M)),
    ("spei with an unknown distribution", lambda r: indices.spei(_v(r, 240), _v(r, 240), 1, r.choice(("gamma", None, 3)), M, 2000, 2000, 2009)),
    ("spei with an unknown periodicity", lambda r: indices.spei(_v(r, 240), _v(r, 240), 1, r.choice((G, PE)), r.choice((None, "monthly")), 2000, 2000, 2009)),
    ("spei of unequal sizes", lambda r: indices.spei(_v(r, 240), _v(r, r.choice((239, 241, 12, 228, 1))), 1, G, M, 2000, 2000, 2009)),
    ("spei of unequal sizes", lambda r: indices.spei(_v(r, r.choice((239, 241, 12, 228, 1))), _v(r, 240), 1, r.choice((G, PE)), M, 2000, 2000, 2009)),
    ("scale_values of a 3-D array", lambda r: compute.scale_values(_v(r, 240).reshape(2, 10, 12), 3, M)),
    ("scale_values with an unknown periodicity", lambda r: compute.scale_values(_v(r, 240), 3, r.choice((None, "monthly", 12)))),
    ("gamma_parameters of a wrong second dimension", lambda r: compute.gamma_parameters(_v(r, 240).reshape(-1, 24), 2000, 2000, 2009, M)),
    ("gamma_parameters of a 3-D array", lambda r: compute.gamma_parameters(_v(r, 240).reshape(2, 10, 12), 2000, 2000, 2009, M)),
    ("gamma_parameters of a 1-D array without periodicity", lambda r: compute.gamma_parameters(_v(r, 240), 2000, 2000, 2009, r.choice((None, "x")))),
    ("pearson_parameters of a wrong second dimension", lambda r: compute.pearson_parameters(_v(r, 240).reshape(-1, 24), 2000, 2000, 2009, M)),
    ("pearson_parameters of a 3-D array", lambda r: compute.pearson_parameters(_v(r, 240).reshape(2, 10, 12), 2000, 2000, 2009, M)),
    ("pearson_parameters with an unknown periodicity", lambda r: compute.pearson_parameters(_v(r, 240), 2000, 2000, 2009, r.choice((None, "x")))),
    ("transform_fitted_gamma of a wrong second dimension", lambda r: compute.transform_fitted_gamma(_v(r, 240).reshape(-1, 24), 2000, 2000, 2009, M)),
    ("transform_fitted_gamma without periodicity", lambda r: compute.transform_fitted_gamma(_v(r, 240), 2000, 2000, 2009, r.choice((None, "x")))),
    ("transform_fitted_pearson of a wrong second dimension", lambda r: compute.transform_fitted_pearson(_v(r, 240).reshape(-1, 10), 2000, 2000, 2009, M)),
    ("transform_fitted_pearson without periodicity", lambda r: compute.transform_fitted_pearson(_v(r, 240), 2000, 2000, 2009, r.choice((None, "x")))),
    ("transform_fitted_gamma of a 3-D array", lambda r: compute.transform_fitted_gamma(_v(r, 240).reshape(2, 10, 12), 2000, 2000, 2009, M)),
    ("transform_fitted_pearson of a 3-D array", lambda r: compute.transform_fitted_pearson(_v(r, 240).reshape(2, 10, 12), 2000, 2000, 2009, M)),
    ("transform_fitted_gamma of a wrong second dimension (daily)", lambda r: compute.transform_fitted_gamma(_v(r, 730).reshape(2, 365), 2000, 2000, 2001, DLY)),
    ("pearson_parameters of a wrong second dimension (daily)", lambda r: compute.pearson_parameters(_v(r, 730).reshape(2, 365), 2000, 2000, 2001, DLY)),
    ("pet of a wrong second dimension", lambda r: indices.pet(_v(r, 240).reshape(-1, r.choice((10, 24, 6))), 40.0, 2000)),
    ("pet of (years, 12) temperatures at an invalid latitude", lambda r: indices.pet(_v(r, 24).reshape(2, 12), _bad_lat(r), 2000)),
    ("spi of a 3-D daily array", lambda r: indices.spi(_v(r, 732).reshape(1, 2, 366), 1, PE, 2000, 2000, 2001, DLY)),
    ("percentage_of_normal with a scale below 1", lambda r: indices.percentage_of_normal(_v(r, 240), r.choice((0, -1, -12, None)), 2000, 2000, 2009, M)),
    ("percentage_of_normal with an unknown periodicity", lambda r: indices.percentage_of_normal(_v(r, 240), 1, 2000, 2000, 2009, r.choice((None, "monthly", 12)))),
    ("percentage_of_normal calibrated before the data", lambda r: indices.percentage_of_normal(_v(r, 240), 1, 2000, r.choice((1999, 1990)), 2005, M)),
    ("percentage_of_normal calibrated for longer than the data", lambda r: indices.percentage_of_normal(_v(r, 240), 1, 2000, 2000, r.choice((2020, 2021, 2050)), M)),
    ("percentage_of_normal (daily) calibrated for longer than the data", lambda r: indices.percentage_of_normal(_v(r, 366 * 3), 1, 2000, 2000, r.choice((2003, 2010, 2050)), DLY)),
    ("percentage_of_normal calibrated for longer than a partial record", lambda r: indices.percentage_of_normal(_v(r, 239), 1, 2000, 2000, 2019, M)),
    ("pet at an invalid latitude", lambda r: indices.pet(_v(r, 24), _bad_lat(r), 2000)),
    ("pet at an invalid first latitude of an array", lambda r: indices.pet(_v(r, 24), np.array([r.choice((91.0, -91.0, NAN)), 10.0]), 2000)),
    ("eto_hargreaves of unequal sizes", lambda r: eto.eto_hargreaves(_v(r, 366), _v(r, 366), _v(r, 365), 40.0)),
    ("eto_hargreaves of unequal sizes", lambda r: eto.eto_hargreaves(_v(r, 365), _v(r, 366), _v(r, 366), 40.0)),
    ("eto_hargreaves of unequal sizes", lambda r: eto.eto_hargreaves(_v(r, 366), _v(r, 367), _v(r, 366), 40.0)),
    ("eto_hargreaves of unequal sizes", lambda r: eto.eto_hargreaves(*[_v(r, n) for n in r.choice(((366, 366, 1), (1, 366, 366), (366, 1, 366), (1, 1, 366)))], 40.0)),
    ("eto_hargreaves at an invalid latitude", lambda r: eto.eto_hargreaves(_v(r, 366), _v(r, 366), _v(r, 366), r.choice((90.5, -91.0, 200.0)))),
    ("eto_hargreaves of a wrong second dimension", lambda r: eto.eto_hargreaves(_v(r, 366).reshape(-1, 3), _v(r, 366).reshape(-1, 3), _v(r, 366).reshape(-1, 3), 40.0)),
    ("eto_thornthwaite of a wrong second dimension", lambda r: eto.eto_thornthwaite(_v(r, 240).reshape(-1, 10), 40.0, 2000)),
    ("eto_thornthwaite of a 3-D array", lambda r: eto.eto_thornthwaite(_v(r, 240).reshape(2, 10, 12), 40.0, 2000)),
    ("eto_thornthwaite at an invalid latitude", lambda r: eto.eto_thornthwaite(_v(r, 24), r.choice((90.5, -91.0, 200.0, NAN)), 2000)),
    ("pci of a wrong number of days", lambda r: indices.pci(_v(r, r.choice((1, 12, 364, 367, 730, 732))))),
    ("pci of an incomplete year", lambda r: indices.pci(_nan_in(_v(r, r.choice((365, 366))), r))),
    ("transform_to_366day of a 2-D array", lambda r: utils.transform_to_366day(_v(r, 730).reshape(2, 365), 2001, 2)),
    ("transform_to_gregorian of a 2-D array", lambda r: utils.transform_to_gregorian(_v(r, 732).reshape(2, 366), 2001)),
    ("transform_to_gregorian of a partial year", lambda r: utils.transform_to_gregorian(_v(r, r.choice((365, 367, 731, 700, 1))), 2001)),
    ("reshape_to_2d of a wrong second dimension", lambda r: utils.reshape_to_2d(_v(r, 240).reshape(-1, 10), 12)),
    ("reshape_to_2d of a 3-D array", lambda r: utils.reshape_to_2d(_v(r, 240).reshape(2, 10, 12), 12)),
    ("reshape_to_divs_years_months of a 1-D array", lambda r: utils.reshape_to_divs_years_months(_v(r, 240))),
    ("reshape_to_divs_years_months of a wrong second dimension", lambda r: utils.reshape_to_divs_years_months(_v(r, 240).reshape(-1, 10))),
    ("reshape_to_divs_years_months of a wrong third dimension", lambda r: utils.reshape_to_divs_years_months(_v(r, 240).reshape(2, 12, 10))),
    ("sign_change of unequal sizes", lambda r: utils.sign_change(_v(r, 10), _v(r, r.choice((9, 1))))),
    ("pdsi of unequal sizes", lambda r: palmer.pdsi(_v(r, 240), _v(r, r.choice((239, 228, 252, 1))), 4.0, 2000, 2000, 2009)),
    ("pdsi of a wrong second dimension", lambda r: palmer.pdsi(_v(r, 240).reshape(-1, 10), _v(r, 240).reshape(-1, 10), 4.0, 2000, 2000, 2009)),
    ("lmoments.fit of fewer than four values", lambda r: lmoments.fit(_v(r, r.randint(0, 3)))),
    ("Periodicity.from_string of an unknown name", lambda r: compute.Periodicity.from_string(r.choice(("weekly", "", "Monthly", "12")))),
    ("solar declination of an invalid day", lambda r: _priv(eto, "_solar_declination")(r.choice((0, -1, 367, 400)))),
    ("sunset hour angle at an invalid latitude", lambda r: _priv(eto, "_sunset_hour_angle")(r.choice((1.6, -1.6, 3.0)), 0.1)),
    ("sunset hour angle of an invalid declination", lambda r: _priv(eto, "_sunset_hour_angle")(0.5, r.choice((0.41, -0.41, 1.0)))),
    ("daylight hours of an invalid angle", lambda r: _priv(eto, "_daylight_hours")(r.choice((-0.001, 3.15, 4.0, -1.0)))),
]


def _nan_in(a, r):
    a[r.choice((0, len(a) - 1, r.randrange(len(a))))] = NAN
    return a


def _priv(mod, name):
    f = getattr(mod, name, None)
    if f is None:
        raise Skip()
    return f


VALID = [
    ("pet at latitude 90", lambda r: indices.pet(_v(r, 24), 90.0, 2000)),
    ("pet at latitude -90", lambda r: indices.pet(_v(r, 24), -90.0, 2000)),
    ("pet at latitude 90 (integer)", lambda r: indices.pet(_v(r, 24), 90, 2000)),
    ("pet with an array of latitudes", lambda r: indices.pet(_v(r, 24), np.array([-90.0, 90.0]), 2000)),
    ("percentage_of_normal with scale 1", lambda r: indices.percentage_of_normal(_v(r, 240), 1, 2000, 2000, 2019, M)),
    ("percentage_of_normal calibrated by the whole daily record", lambda r: indices.percentage_of_normal(_v(r, 732), 1, 2000, 2000, 2001, DLY)),
    ("pci of 365 days", lambda r: indices.pci(_v(r, 365))),
    ("pci of 366 days", lambda r: indices.pci(_v(r, 366))),
    ("transform_to_gregorian of one year", lambda r: utils.transform_to_gregorian(_v(r, 366), 2001)),
    ("eto_hargreaves at a pole", lambda r: eto.eto_hargreaves(_v(r, 20), _v(r, 20), _v(r, 20), r.choice((90.0, -90.0)))),
    ("eto_thornthwaite at a pole", lambda r: eto.eto_thornthwaite(_v(r, 20), r.choice((90.0, -90.0)), 2000)),
    ("lmoments.fit of four values", lambda r: lmoments.fit(A([1.0, 2.0, 4.0, 9.0]))),
    ("spi of a single value", lambda r: indices.spi(_v(r, 1), 1, G, 2000, 2000, 2000, M)),
    ("spi of 2-D daily values", lambda r: indices.spi(_v(r, 732).reshape(2, 366), 1, G, 2000, 2000, 2001, DLY)),
    ("solar declination of day 366", lambda r: _priv(eto, "_solar_declination")(366)),
    ("solar declination of day 1", lambda r: _priv(eto, "_solar_declination")(1)),
    ("sunset hour angle at the pole", lambda r: _priv(eto, "_sunset_hour_angle")(r.choice((-1, 1)) * math.pi / 2, r.choice((-1, 1)) * math.radians(23.45))),
    ("daylight hours of pi", lambda r: _priv(eto, "_daylight_hours")(math.pi)),
    ("daylight hours of 0", lambda r: _priv(eto, "_daylight_hours")(0.0)),
    ("compute_days of no months", lambda r: utils.compute_days(2000, 0)),
]


def check_C22(c):
    if "name" in c:     # of a failed obligation: every invalid call of that function, several times
        for i, (name, _) in enumerate(INVALID):
            if name.split()[0] == c["name"].split()[0]:
                for seed in range(8):
                    r = check_C22(dict(what="bad", i=i, seed=seed))
                    if r:
                        return r
        return None
    rng = random.Random(c["seed"])
    name, f = (INVALID if c["what"] == "bad" else VALID)[c["i"]]
    try:
        r = f(rng)
    except Skip:
        raise
    except ValueError as e:
        return f"{name} is rejected: {e}" if c["what"] == "good" else None
    except Exception as e:  # noqa
        return f"{name} raises {type(e).__name__} ({e})" + ("" if c["what"] == "good" else " instead of ValueError")
    if c["what"] == "bad":
        return f"{name} is not rejected but gives {str(r)[:80]}"
    return None


COUNTS = dict(C01=220, C02=210, C03=500, C04=160, C05=160, C06=150, C07=150, C08=150, C09=160, C10=360, C11=220, C12=200, C13=160,
              C14=240, C15=90, C16=50, C17=130, C18=500, C21=160, C22=400)
