"""Independent reference definitions (plain Python on lists; scipy.special for the
distribution functions).  Nothing here is derived from the code under test except
the conventions that properties.jsonl states."""
import math
from scipy import special

NAN = float("nan")


def isnan(x):
    return x != x


def isleap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before_year(y):
    """days from 1-01-01 to y-01-01"""
    y -= 1
    return 365 * y + y // 4 - y // 100 + y // 400


MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def month_days(leap):
    return [29 if (leap and i == 1) else d for i, d in enumerate(MDAYS)]


def day_number(y, m):
    """days from 1-01-01 to the first of month m (1..12) of year y"""
    return days_before_year(y) + sum(month_days(isleap(y))[:m - 1])


def sliding(v, scale):
    out = []
    for i in range(len(v)):
        if i < scale - 1:
            out.append(NAN)
        else:
            out.append(math.fsum(v[i - scale + 1:i + 1]) if not any(isnan(x) for x in v[i - scale + 1:i + 1]) else NAN)
    return out


def rows(v, p):
    v = list(v)
    while len(v) % p:
        v.append(NAN)
    return [v[i:i + p] for i in range(0, len(v), p)]


def calib(n_years, start, c0, c1):
    """row range of the calibration years"""
    end = start + n_years - 1
    if c0 < start or c1 > end:
        c0, c1 = start, end
    return c0 - start, c1 - start + 1


def ppf(p):
    if isnan(p) or p < 0 or p > 1:
        return NAN
    return float(special.ndtri(p))


def clip309(z):
    return z if isnan(z) else max(-3.09, min(3.09, z))


def gamma_fit(col):
    """Thom; (alpha, beta, A)"""
    x = [t for t in col if not isnan(t) and t != 0]
    if not x:
        return NAN, NAN, NAN
    mean = math.fsum(x) / len(x)
    if mean <= 0 or min(x) <= 0:
        return NAN, NAN, NAN
    a = math.log(mean) - math.fsum(math.log(t) for t in x) / len(x)
    if not a > 0:
        return NAN, NAN, a
    alpha = (1 + math.sqrt(1 + 4 * a / 3)) / (4 * a)
    return alpha, mean / alpha, a


def gamma_index(col, x, alpha, beta):
    """col: all values of the calendar step over the record; x the total"""
    if isnan(x) or x == 0:
        return NAN
    q = sum(1 for t in col if t == 0) / len(col)
    if x < 0:
        g = 0.0
    else:
        g = float(special.gammainc(alpha, x / beta))
    return ppf(q + (1 - q) * g)


def lmom(col):
    x = sorted(t for t in col if not isnan(t))
    n = len(x)
    if n < 4:
        return None
    b0 = math.fsum(x) / n
    b1 = math.fsum(x[j] * j for j in range(n)) / (n * (n - 1.0))
    b2 = math.fsum(x[j] * j * (j - 1.0) for j in range(n)) / (n * (n - 1.0) * (n - 2.0))
    return b0, 2 * b1 - b0, 6 * b2 - 6 * b1 + b0


def pearson_fit(col):
    """(loc, scale, skew) by L-moments, or None where undefined"""
    lm = lmom(col)
    if lm is None:
        return None
    l1, l2, l3 = lm
    if not l2 > 1e-9 * max(abs(l1), 1e-300):
        return None
    t3 = l3 / l2
    if abs(t3) >= 1 - 1e-9:
        return None
    t = abs(t3)
    if t <= 1e-6:
        return l1, l2 * math.sqrt(math.pi), 0.0
    if t < 1 / 3:
        z = 3 * math.pi * t * t
        alpha = (1 + 0.2906 * z) / (z + 0.1882 * z * z + 0.0442 * z ** 3)
    else:
        z = 1 - t
        alpha = (0.36067 * z - 0.59567 * z ** 2 + 0.25361 * z ** 3) / (1 - 2.78861 * z + 2.56096 * z ** 2 - 0.77045 * z ** 3)
    skew = math.copysign(2 / math.sqrt(alpha), t3)
    scale = l2 * math.sqrt(math.pi * alpha) * math.exp(math.lgamma(alpha) - math.lgamma(alpha + 0.5))
    return l1, scale, skew


def pearson_cdf(x, loc, scale, skew):
    if isnan(x) or not scale > 0:
        return NAN
    if abs(skew) < 1.6e-5:
        return float(special.ndtr((x - loc) / scale))
    a = 4 / (skew * skew)
    xi = loc - 2 * scale / skew
    y = (x - xi) / (0.5 * scale * abs(skew))
    if skew > 0:
        return float(special.gammainc(a, y)) if y > 0 else 0.0
    return float(special.gammaincc(a, -y)) if y < 0 else 1.0


def pearson_end(loc, scale, skew):
    if skew == 0 or scale == 0:
        return NAN
    return loc - 2 * scale / skew


def pearson_index(x, p0, loc, scale, skew):
    if isnan(x):
        return NAN
    f = pearson_cdf(x, loc, scale, skew)
    end = pearson_end(loc, scale, skew)
    if x < 0.0005:
        f = 0.0 if p0 > 0 else 0.0005
    if skew >= 0 and x <= end:
        f = 0.0005
    if skew < 0 and x >= end:
        f = 0.9995
    return ppf(p0 + (1 - p0) * f)


def zeros_share(col):
    obs = [t for t in col if not isnan(t)]
    z = sum(1 for t in obs if t == 0)
    return z, len(obs)


def pearson_params(col):
    """(p0, loc, scale, skew); None where the fit is undefined (the code raises)"""
    z, n = zeros_share(col)
    if n - z < 4:
        return 0.0, 0.0, 0.0, 0.0
    f = pearson_fit(col)
    if f is None:
        return None
    return (z / n,) + f


# ------------------------------------------------------------------ solar
def declination(d):
    return 0.409 * math.sin(2 * math.pi * d / 365 - 1.39)


def hour_angle(lat, dec):
    c = -math.tan(lat) * math.tan(dec)
    return math.acos(max(-1.0, min(1.0, c)))


def daylight(lat, d):
    return 24 / math.pi * hour_angle(lat, declination(d))


def mean_daylight(lat, leap):
    out = []
    d = 1
    for n in month_days(leap):
        out.append(math.fsum(daylight(lat, k) for k in range(d, d + n)) / n)
        d += n
    return out


def thornthwaite(temps, lat_deg, start):
    lat = math.radians(lat_deg)
    t = [x if isnan(x) else max(x, 0.0) for x in temps]
    means = []
    for m in range(12):
        obs = [x for x in t[m::12] if not isnan(x)]
        means.append(math.fsum(obs) / len(obs) if obs else NAN)
    heat = math.fsum((x / 5) ** 1.514 for x in means)
    a = 6.75e-7 * heat ** 3 - 7.71e-5 * heat ** 2 + 1.792e-2 * heat + 0.49239
    dl = {b: mean_daylight(lat, b) for b in (False, True)}
    out = []
    for i, x in enumerate(t):
        if isnan(x):
            out.append(NAN)
            continue
        leap = isleap(start + i // 12)
        m = i % 12
        if heat == 0:
            out.append(0.0)
            continue
        out.append(16 * dl[leap][m] / 12 * month_days(leap)[m] / 30 * (10 * x / heat) ** a)
    return out


def radiation(lat, d):
    dec = declination(d)
    ws = hour_angle(lat, dec)
    dr = 1 + 0.033 * math.cos(2 * math.pi * d / 365)
    return 24 * 60 / math.pi * 0.0820 * dr * (
        ws * math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec) * math.sin(ws))


def hargreaves(tmin, tmax, tmean, lat_deg):
    lat = math.radians(lat_deg)
    ra = [radiation(lat, d) for d in range(1, 367)]
    out = []
    for i, (lo, hi, me) in enumerate(zip(tmin, tmax, tmean)):
        if isnan(lo) or isnan(hi) or isnan(me) or hi < lo:
            out.append(NAN)
        else:
            out.append(0.0023 * (me + 17.8) * math.sqrt(hi - lo) * 0.408 * ra[i % 366])
    return out


# ------------------------------------------------------------------ percentage of normal, PCI
def pnp(v, scale, start, c0, c1, p):
    s = sliding(v, scale)
    i0 = (c0 - start) * p
    i1 = (c1 - start + 1) * p
    cal = s[i0:i1]
    avg = []
    for k in range(p):
        obs = [x for x in cal[k::p] if not isnan(x)]
        avg.append(math.fsum(obs) / len(obs) if obs else NAN)
    return [x / avg[i % p] if avg[i % p] > 0 else NAN for i, x in enumerate(s)]


def pci(v):
    md = month_days(len(v) == 366)
    i = 0
    tot = []
    for n in md:
        tot.append(math.fsum(v[i:i + n]))
        i += n
    s = math.fsum(tot)
    return 100 * math.fsum(t * t for t in tot) / (s * s) if s != 0 else NAN


# ------------------------------------------------------------------ 366-day years
def to_366(v, start, years):
    it = 0
    out = []
    v = list(v)
    need = sum(366 if isleap(y) else 365 for y in range(start, start + years))
    v += [NAN] * (need - len(v))
    for y in range(start, start + years):
        n = 366 if isleap(y) else 365
        a = v[it:it + n]
        it += n
        if n == 365:
            a = a[:59] + [(a[58] + a[59]) / 2] + a[59:]
        out += a
    return out


def to_gregorian(v, start):
    out = []
    for k in range(len(v) // 366):
        a = list(v[366 * k:366 * k + 366])
        if not isleap(start + k):
            del a[59]
        out += a
    return out


def length_366(n, start):
    out = 0
    y = start
    while n > 0:
        d = 366 if isleap(y) else 365
        out += 366 if n >= d else n
        n -= d
        y += 1
    return out


# ------------------------------------------------------------------ Palmer
def palmer_month(p, pet, ss, su, awc):
    """two-layer accounting of one month; awc total capacity, 1 inch in the surface layer"""
    cap = max(awc - 1.0, 0.0)
    if ss >= pet:
        pl = pet
    else:
        pl = min(ss + su, (pet - ss) * su / (cap + 1.0) + ss)
    if p >= pet:
        excess = p - pet
        rs = min(excess, 1.0 - ss)
        ru = min(excess - rs, cap - su)
        return dict(pl=pl, et=pet, tl=0.0, r=rs + ru, ro=excess - rs - ru, ss=ss + rs, su=su + ru)
    demand = pet - p
    sl = min(ss, demand)
    ul = min(su, (demand - sl) * su / awc) if demand > sl else 0.0
    return dict(pl=pl, et=p + sl + ul, tl=sl + ul, r=0.0, ro=0.0, ss=ss - sl, su=su - ul)


def palmer_balance(P, E, awc):
    cap = max(awc - 1.0, 0.0)
    ss, su = 1.0, cap
    out = []
    for p, e in zip(P, E):
        m = palmer_month(p, e, ss, su, awc)
        m["sp"] = ss + su
        m["pr"] = cap + 1.0 - ss - su
        out.append(m)
        ss, su = m["ss"], m["su"]
    return out


def palmer_coefficients(E, bal, i0, i1):
    """alpha, beta, gamma, delta and the sums over the calibration rows i0..i1 (exclusive)"""
    idx = [[12 * y + m for y in range(i0, i1)] for m in range(12)]

    def sums(f):
        return [math.fsum(f(i) for i in idx[m]) for m in range(12)]
    s = {k: sums(lambda i, k=k: bal[i][k]) for k in ("sp", "pr", "pl", "r", "tl", "et", "ro")}
    s["pet"] = sums(lambda i: E[i])

    def ratio(a, b, dflt):
        return [x / y if y != 0 else (1.0 if (x == 0 and dflt) else 0.0) for x, y in zip(a, b)]
    return (ratio(s["et"], s["pet"], True), ratio(s["r"], s["pr"], True),
            ratio(s["ro"], s["sp"], True), ratio(s["tl"], s["pl"], False), s)


def palmer_case(prob, x1, x2, x3):
    if x3 == 0:
        return x1 if abs(x1) > abs(x2) else x2
    if prob <= 0 or prob >= 100:
        return x3
    q = prob / 100
    return (1 - q) * x3 + q * (x1 if x3 <= 0 else x2)


def palmer(P, E, awc, i0, i1, coef=None):
    """reference run; P, E complete lists of whole years; calibration rows i0..i1 (exclusive).
    Returns pdsi, phdi, pmdi, z, (alpha, beta, gamma, delta), margin
    (margin: distance from the nearest switching threshold that was tested)"""
    n = len(P)
    P = [max(p, 0.0) for p in P]
    bal = palmer_balance(P, E, awc)
    al, be, ga, de, s = palmer_coefficients(E, bal, i0, i1)
    if coef is not None:
        al, be, ga, de = [list(map(float, c)) for c in coef]
    psum = [math.fsum(P[12 * y + m] for y in range(i0, i1)) for m in range(12)]
    trat = [(s["pet"][m] + s["r"][m] + s["ro"][m]) / (psum[m] + s["tl"][m]) for m in range(12)]
    cafec = [al[i % 12] * E[i] + be[i % 12] * bal[i]["pr"] + ga[i % 12] * bal[i]["sp"] - de[i % 12] * bal[i]["pl"]
             for i in range(n)]
    years = i1 - i0
    dbar = [math.fsum(abs(P[12 * y + m] - cafec[12 * y + m]) for y in range(i0, i1)) / years for m in range(12)]
    khat = [1.5 * math.log10((trat[m] + 2.8) / dbar[m]) + 0.5 for m in range(12)]
    tot = math.fsum(dbar[m] * khat[m] for m in range(12))
    K = [17.67 * k / tot for k in khat]
    Z = [K[i % 12] * (P[i] - cafec[i]) for i in range(n)]
    # the X1, X2, X3 recursion
    margin = [1e9]

    def near(*xs):
        for x in xs:
            margin[0] = min(margin[0], abs(x))
    x1 = x2 = x3 = 0.0
    v = pro = 0.0
    X = [NAN] * n
    H = [0.0] * n       # px3
    PX1 = [0.0] * n
    PX2 = [0.0] * n
    PR = [0.0] * n
    pd = [NAN] * n
    ph = [NAN] * n
    pm = [NAN] * n
    wait = []           # months that await an assignment
    last_wait = []      # the slots the closing pass reads: (slot -> month), number of slots
    slots = {}
    nslots = 0

    def emit(i, x):
        pd[i] = x
        ph[i] = H[i] if H[i] != 0 else x
        pm[i] = palmer_case(PR[i], PX1[i], PX2[i], H[i])

    def assign(i, x, kind):
        cur = kind
        todo = []
        if kind == 3:
            for j in wait:
                todo.append((j, H[j]))
        else:
            for j in reversed(wait):
                a, b = (PX1[j], PX2[j]) if cur == 1 else (PX2[j], PX1[j])
                if a == 0:
                    cur = 3 - cur
                    todo.append((j, b))
                else:
                    todo.append((j, a))
        for j, val in todo:
            emit(j, val)
        emit(i, x)
        del wait[:]

    for i in range(n):
        slots[len(wait)] = i
        z = Z[i]
        pv = None
        end200 = False
        if pro == 0 or pro == 100:
            near(x3 - 0.5, x3 + 0.5)
            if -0.5 <= x3 <= 0.5:
                PR[i] = 0.0
                H[i] = 0.0
                pv = 0.0
                end200 = True
            else:
                near(z - 0.15 if x3 > 0 else z + 0.15)
        if not end200:
            wet = x3 > 0
            if (pro == 0 or pro == 100) and (z >= 0.15 if wet else z <= -0.15):
                fizz = True
            else:
                if wet:
                    pv = z - 0.15 + min(v, 0.0)
                    fizz = pv >= 0
                else:
                    pv = z + 0.15 + max(v, 0.0)
                    fizz = pv <= 0
                near(pv)
            if fizz:
                pv = 0.0
                PX1[i] = PX2[i] = PR[i] = 0.0
                H[i] = 0.897 * x3 + z / 3
                X[i] = H[i]
                assign(i, X[i], 3)
                v, pro, x1, x2, x3 = pv, PR[i], PX1[i], PX2[i], H[i]
                continue
            ze = -2.691 * x3 + (1.5 if wet else -1.5)
            q = ze if pro == 100 else ze + v
            PR[i] = pv / q * 100
            near((PR[i] - 100) / 100)
            if PR[i] >= 100:
                PR[i] = 100.0
                H[i] = 0.0
            else:
                H[i] = 0.897 * x3 + z / 3
        # incipient spells
        PX1[i] = max(0.0, 0.897 * x1 + z / 3)
        near(PX1[i] - 1)
        if PX1[i] >= 1 and H[i] == 0:
            H[i] = PX1[i]
            X[i] = PX1[i]
            PX1[i] = 0.0
            assign(i, X[i], 1)
        else:
            PX2[i] = min(0.0, 0.897 * x2 + z / 3)
            near(PX2[i] + 1)
            if PX2[i] <= -1 and H[i] == 0:
                H[i] = PX2[i]
                X[i] = PX2[i]
                PX2[i] = 0.0
                assign(i, X[i], 2)
            elif H[i] == 0 and PX1[i] == 0:
                X[i] = PX2[i]
                assign(i, X[i], 2)
            elif H[i] == 0 and PX2[i] == 0:
                X[i] = PX1[i]
                assign(i, X[i], 1)
            else:
                X[i] = H[i]
                wait.append(i)
                nslots = len(wait)
        v, pro, x1, x2, x3 = pv, PR[i], PX1[i], PX2[i], H[i]
    # closing pass of the NOAA program: every slot that was last filled
    for k in range(nslots):
        j = slots[k]
        pd[j] = X[j]
        ph[j] = H[j] if H[j] != 0 else X[j]
        pm[j] = palmer_case(PR[n - 1], PX1[n - 1], PX2[n - 1], H[n - 1])
    return pd, ph, pm, Z, (al, be, ga, de), margin[0]
