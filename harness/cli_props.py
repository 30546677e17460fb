"""C19 and C20: the command line (process_climate_indices and spi) run in this process on small
synthetic NetCDF files in a scratch directory, compared per cell with the library."""
import contextlib
import io
import itertools
import logging
import math
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import warnings

import numpy as np
import xarray as xr

warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.CRITICAL)

from climate_indices import compute, indices, utils  # noqa: E402
import climate_indices.__main__ as cli  # noqa: E402
import climate_indices.__spi__ as spicli  # noqa: E402

COUNTS = {"C19": 14, "C20": 14}
PER = {12: compute.Periodicity.monthly, 366: compute.Periodicity.daily}
DISTS = [indices.Distribution.gamma, indices.Distribution.pearson]


class Skip(Exception):
    pass


def ndays(y0, years):
    return sum(366 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 365 for y in range(y0, y0 + years))


def make_data(seed, cells, n, p, blank, flavour=0):
    """one series per cell: positive amounts with a season, zeros, missing values"""
    r = np.random.RandomState(seed)
    t = np.arange(n)
    x = r.gamma(2.0, 30.0 if p == 12 else 3.0, (cells, n)) * (1.2 + np.sin(2 * np.pi * t / p))[None, :] + 1.0
    x *= (1 + 0.5 * np.arange(cells))[:, None]
    if flavour % 2:
        x[r.rand(cells, n) < 0.05] = 0.0
    if flavour % 3 == 1:
        x[r.rand(cells, n) < 0.03] = np.nan
    for c in blank:
        x[c % cells] = np.nan
    return np.round(x, 4)


def make_temp(seed, cells, n):
    r = np.random.RandomState(seed)
    t = np.arange(n)
    return np.round(8 + 12 * np.sin(2 * np.pi * (t - 3) / 12)[None, :] + r.randn(cells, n) * 2 + np.arange(cells)[:, None], 4)


class Files:
    def __init__(self, d):
        self.d = d
        self.n = 0

    def write(self, kind, shape, y0, n, p, variables):
        """variables: name -> (values (cells, n), units)"""
        import pandas as pd
        self.n += 1
        path = os.path.join(self.d, f"in{self.n}.nc")
        time = pd.date_range(f"{y0}-01-01", periods=n, freq="MS" if p == 12 else "D")
        coords, dims = {"time": time}, None
        dv = {}
        if kind == "grid":
            rows, cols = shape
            lat = np.linspace(55.0, -40.0, rows) if rows > 1 else np.array([35.0])
            coords["lat"] = ("lat", lat, {"units": "degrees_north"})
            coords["lon"] = ("lon", np.linspace(-100.0, -80.0, cols) if cols > 1 else np.array([-90.0]), {"units": "degrees_east"})
            dims = ("lat", "lon", "time")
            full = (rows, cols, n)
        elif kind == "divisions":
            rows, cols = shape[0], 1
            lat = np.linspace(55.0, -40.0, rows) if rows > 1 else np.array([35.0])
            coords["division"] = np.arange(101, 101 + rows)
            dims = ("division", "time")
            full = (rows, n)
            dv["lat"] = (("division",), lat, {"units": "degrees_north"})
        else:
            dims = ("time",)
            full = (n,)
            lat = None
        for name, (vals, units) in variables.items():
            dv[name] = (dims, np.asarray(vals, dtype=float).reshape(full), {"units": units})
        xr.Dataset(dv, coords=coords).to_netcdf(path)
        return path, lat


@contextlib.contextmanager
def workers(k):
    old = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: k
    oldp = multiprocessing.pool.os.cpu_count if hasattr(multiprocessing, "pool") else None
    try:
        yield
    finally:
        multiprocessing.cpu_count = old


def run(main, argv):
    """returns None or the exception"""
    old = sys.argv
    sys.argv = ["prog"] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            main()
        return None
    except SystemExit as e:
        return e
    except Exception as e:  # noqa
        return e
    finally:
        sys.argv = old


def read(path, var):
    if not os.path.exists(path):
        return None
    with xr.open_dataset(path) as ds:
        if var not in ds.variables:
            return None
        return np.array(ds[var].values, dtype=float)


def pname(p):
    return "monthly" if p == 12 else "daily"


def lib_series(index, vals, scale, dist, y0, c0, c1, p, total_years, pet=None, lat=None):
    per = PER[p]
    if index == "pet":
        return indices.pet(temperature_celsius=vals.copy(), latitude_degrees=lat, data_start_year=y0)
    v = vals.copy()
    if p == 366:
        v = utils.transform_to_366day(v, y0, total_years)
        if pet is not None:
            pet = utils.transform_to_366day(pet.copy(), y0, total_years)
    if index == "spi":
        out = indices.spi(v, scale, dist, y0, c0, c1, per)
    elif index == "spei":
        out = indices.spei(v, pet.copy(), scale, dist, per, y0, c0, c1)
    else:
        out = indices.percentage_of_normal(v, scale, y0, c0, c1, per)
    if p == 366:
        out = utils.transform_to_gregorian(out, y0)
    return out


def differ(got, exp, what, rtol, atol):
    if got is None:
        return f"{what}: no output written"
    if got.shape != exp.shape:
        return f"{what}: shape {got.shape}, expected {exp.shape}"
    g, e = got.ravel(), exp.ravel()
    bad = ~((np.isnan(g) & np.isnan(e)) | (np.abs(g - e) <= atol + rtol * np.abs(e)))
    if bad.any():
        k = int(np.argmax(bad))
        return f"{what} at {tuple(int(q) for q in np.unravel_index(k, exp.shape))}: {g[k]!r}, the library gives {e[k]!r} ({int(bad.sum())} values differ)"
    return None


def expected(index, shape, kind, data, scale, dist, y0, c0, c1, p, years, pet=None, lat=None):
    rows, cols = shape
    out = []
    for c in range(rows * cols):
        out.append(lib_series(index, data[c], scale, dist, y0, c0, c1, p, years,
                              None if pet is None else pet[c], None if lat is None else float(lat[c // cols])))
    a = np.array(out)
    if kind == "grid":
        return a.reshape(rows, cols, -1)
    if kind == "divisions":
        return a.reshape(rows, -1)
    return a.reshape(-1)


PUNIT = {"mm": 1.0, "millimeters": 1.0, "millimeter": 1.0, "inches": 25.4, "inch": 25.4, "mm/dy": 1.0}


def to_unit(v, unit):
    u = unit.lower()
    if u in PUNIT:
        return v / PUNIT[u]
    if u in ("f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit"):
        return v * 1.8 + 32.0
    if u in ("k", "kelvin"):
        return v + 273.15
    return v


def do_run(fs, base, c, tol, what):
    """one command-line run of description c, compared with the library; None or a text"""
    kind, shape, p, y0, years = c["kind"], tuple(c["shape"]), c["p"], c["y0"], c["years"]
    n = years * 12 if p == 12 else ndays(y0, years)
    cells = shape[0] * shape[1]
    data = make_data(c["seed"], cells, n, p, c.get("blank", []), c.get("flavour", 0))
    pet = temp = lat = None
    index = c["index"]
    c0, c1 = c["cal"]
    pu, eu, tu = c.get("punit", "mm"), c.get("eunit", "mm"), c.get("tunit", "celsius")
    argv = ["--periodicity", pname(p), "--output_file_base", base, "--multiprocessing", c["mp"]]
    if c.get("chunks"):
        argv += ["--chunksizes", "input"]
    if index != "pet":
        variables = {"prcp": (to_unit(data, pu), pu)}
        if kind == "divisions" and index == "spei":
            # one file: xarray can't compare two files' lat variables under PyPy
            pet = make_data(c["seed"] + 7, cells, n, p, [], 0) * 0.4
            variables["pet"] = (to_unit(pet, eu), eu)
        f, lat = fs.write(kind, shape, y0, n, p, variables)
        argv += ["--netcdf_precip", f, "--var_name_precip", "prcp", "--scales", *c["scales"],
                 "--calibration_start_year", c0, "--calibration_end_year", c1]
    if index == "spei" and not c.get("from_temp"):
        if pet is None:
            pet = make_data(c["seed"] + 7, cells, n, p, [], 0) * 0.4
            f, _ = fs.write(kind, shape, y0, n, p, {"pet": (to_unit(pet, eu), eu)})
        argv += ["--netcdf_pet", f, "--var_name_pet", "pet"]
    if index == "pet" or c.get("from_temp"):
        temp = make_temp(c["seed"] + 3, cells, n)
        f, lat = fs.write(kind, shape, y0, n, p, {"tavg": (to_unit(temp, tu), tu)})
        argv += ["--netcdf_temp", f, "--var_name_temp", "tavg"]
    if c["cmd"] == "main":
        argv = ["--index", index] + argv
        main = cli.main
    else:
        main = spicli.main
        if c.get("params"):
            argv += ["--save_params", base + "_params.nc", "--overwrite"]
    with workers(c["cpus"]):
        e = run(main, argv)
    if e is not None:
        return f"{what}: raised {type(e).__name__}: {e}", None
    if c["cmd"] == "spi" and c.get("params"):
        # once more with the saved parameters
        argv = [a for a in argv if a not in ("--overwrite",)]
        k = argv.index("--save_params")
        argv[k] = "--load_params"
        argv[argv.index("--output_file_base") + 1] = base + "_again"
        with workers(c["cpus"]):
            e = run(main, argv)
        if e is not None:
            return f"{what}: with loaded parameters raised {type(e).__name__}: {e}", None
    outs = {}
    if temp is not None:
        tpet = expected("pet", shape, kind, temp, None, None, y0, c0, c1, p, years, None, lat)
        m = differ(read(base + "_pet_thornthwaite.nc", "pet_thornthwaite"), tpet, what + " PET", tol, tol)
        if m:
            return m, None
        outs["pet"] = tpet
        pet = tpet.reshape(cells, n)
    if index == "pet":
        return None, outs
    todo = []
    for s in c["scales"]:
        if index in ("spi", "spei"):
            for d in DISTS:
                todo.append((index, s, d))
        elif index == "pnp":
            todo.append((index, s, None))
        elif index == "scaled":
            todo += [(i, s, d) for i in ("spi", "spei") for d in DISTS] + [("pnp", s, None)]
    for i, s, d in todo:
        exp = expected(i, shape, kind, data, s, d, y0, c0, c1, p, years, pet if i == "spei" else None)
        if c["cmd"] == "main":
            var = f"{i}_{d.value}_{str(s).zfill(2)}" if d else f"{i}_{str(s).zfill(2)}"
            names = [(base, var)]
        else:
            var = f"spi_{d.value}_{s}_{PER[p].unit()}"
            names = [(base, var)] + ([(base + "_again", var)] if c.get("params") else [])
        for b, var in names:
            m = differ(read(f"{b}_{var}.nc", var), exp, f"{what} {var}" + (" from loaded parameters" if b != base else ""), tol, tol)
            if m:
                return m, None
    return None, outs


def reset():
    cli._global_shared_arrays = {}
    spicli._global_shared_arrays = {}


def check_C19(c):
    d = tempfile.mkdtemp(prefix="cli19_")
    try:
        reset()
        fs = Files(d)
        for k, r in enumerate(c["runs"]):
            m, _ = do_run(fs, os.path.join(d, f"out{k}"), r, 1e-6, f"run {k} ({r['cmd']} {r['index']} {r['kind']} {r['shape']} {r['mp']} of {r['cpus']} cpus)")
            if m:
                return m
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def base_run(rng, **k):
    p = k.pop("p", 12)
    years = rng.choice([4, 5, 7]) if p == 12 else 4
    y0 = rng.choice([1899, 1980, 1999, 2001])
    r = dict(cmd="main", index="spi", kind="grid", shape=[3, 2], p=p, y0=y0, years=years, seed=rng.randrange(10**6),
             scales=[rng.choice([1, 2, 3, 6])], cal=[y0 + rng.randint(0, 1), y0 + years - 1 - rng.randint(0, 1)],
             mp=rng.choice(["single", "all", "all_but_one"]), cpus=rng.choice([1, 2, 3, 4, 5]), flavour=rng.randrange(6))
    r.update(k)
    return r


def gen_C19(rng, n):
    yield dict(runs=[base_run(rng, shape=[7, 1], mp="all", cpus=4, index="spi")])
    yield dict(runs=[base_run(rng, shape=[7, 2], mp="all", cpus=3, index="spei", scales=[1, 2]),
                     base_run(rng, shape=[3, 2], mp="all", cpus=5, index="pet")])
    yield dict(runs=[base_run(rng, cmd="spi", shape=[5, 2], mp="all", cpus=3, params=True, flavour=0, scales=[1, 3])])
    yield dict(runs=[base_run(rng, cmd="spi", shape=[3, 2], mp="all", cpus=5, flavour=1),
                     base_run(rng, cmd="spi", shape=[3, 2], mp="all", cpus=5, flavour=4, blank=[1])])
    yield dict(runs=[base_run(rng, kind="divisions", shape=[5, 1], mp="all", cpus=3, index="spi"),
                     base_run(rng, kind="divisions", shape=[5, 1], mp="all", cpus=2, index="spei", blank=[0, 3]),
                     base_run(rng, kind="divisions", shape=[3, 1], mp="all", cpus=5, index="pnp")])
    yield dict(runs=[base_run(rng, kind="timeseries", shape=[1, 1], mp="all", cpus=4, index="spi"),
                     base_run(rng, kind="timeseries", shape=[1, 1], mp="all", cpus=4, index="pnp")])
    yield dict(runs=[base_run(rng, p=366, shape=[2, 1], scales=[5], index="pnp", mp="all", cpus=2, flavour=0),
                     base_run(rng, p=366, shape=[1, 2], scales=[3], index="spi", mp="all", cpus=2, flavour=0)])
    yield dict(runs=[base_run(rng, cmd="spi", p=366, shape=[2, 1], scales=[3], mp="all", cpus=2, flavour=0)])
    yield dict(runs=[base_run(rng, index="scaled", from_temp=True, shape=[4, 2], mp="all_but_one", cpus=4)])
    for _ in range(max(0, n - 9)):
        runs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            cmd = rng.choice(["main", "main", "spi"])
            kind = "grid" if cmd == "spi" else rng.choice(["grid", "grid", "divisions", "timeseries"])
            index = "spi" if cmd == "spi" else rng.choice(["spi", "pnp"] if kind == "timeseries" else ["spi", "spei", "pnp", "pet"])
            shape = [rng.randint(1, 8), rng.randint(1, 3) if kind == "grid" else 1]
            if kind == "timeseries":
                shape = [1, 1]
            runs.append(base_run(rng, cmd=cmd, kind=kind, index=index, shape=shape, cpus=rng.randint(1, 6),
                                 blank=[rng.randrange(20)] if rng.random() < 0.4 else [], params=rng.random() < 0.5,
                                 chunks=rng.random() < 0.2 and cmd == "main"))
        yield dict(runs=runs)


def case_of(rng, u):
    return rng.choice([u, u.upper(), u.capitalize(), "".join(rng.choice([ch, ch.upper()]) for ch in u)])


def check_C20(c):
    d = tempfile.mkdtemp(prefix="cli20_")
    try:
        reset()
        fs = Files(d)
        r = c["run"]
        what = f"{r['cmd']} {r['index']} {r['kind']} in {r.get('punit', 'mm')}/{r.get('eunit', 'mm')}/{r.get('tunit', 'celsius')}"
        m, _ = do_run(fs, os.path.join(d, "out"), r, 1e-5, what)
        if c.get("bad"):
            if m is None:
                return what + ": unsupported unit accepted"
            if "raised ValueError" not in m:
                return what + ": unsupported unit not rejected with ValueError: " + m
            return None
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_C20(rng, n):
    pus = ["mm", "millimeters", "millimeter", "mm/dy", "inches", "inch"]
    eus = ["mm", "millimeters", "millimeter", "inches", "inch"]
    tus = ["degree_celsius", "degrees_celsius", "celsius", "c", "f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit", "k", "kelvin"]
    kw = dict(flavour=0, shape=[2, 1], scales=[2])
    cu = itertools.cycle(rng.sample(pus, len(pus)))
    ce = itertools.cycle(rng.sample(eus, len(eus)))
    ct = itertools.cycle(rng.sample(tus, len(tus)))
    for u in ("inches", "inch"):
        yield dict(run=base_run(rng, index="spei", punit=case_of(rng, u), eunit=case_of(rng, u), **kw))
    for u in tus:
        yield dict(run=base_run(rng, index="pet", tunit=case_of(rng, u), **kw))
    for u in ("inches", "inch", "mm/dy"):
        yield dict(run=base_run(rng, cmd="spi", punit=case_of(rng, u), **kw))
    for bad in (dict(index="spi", punit="cm"), dict(index="pet", tunit="degrees_rankine"), dict(index="spei", eunit="meters"),
                dict(index="spi", cmd="spi", punit="kg"), dict(index="pnp", punit=""), dict(index="pet", tunit="kelvins"),
                dict(index="spei", eunit="mm/dy")):
        yield dict(run=base_run(rng, **{**kw, **bad}), bad=True)
    for _ in range(n):
        idx = rng.choice(["spi", "spei", "pnp", "scaled"])
        kind = rng.choice(["grid", "divisions"])
        k2 = dict(kw, kind=kind, index=idx, punit=case_of(rng, next(cu)))
        if idx == "spei":
            k2["eunit"] = case_of(rng, next(ce))
        if idx == "scaled":
            k2["from_temp"] = True
            k2["tunit"] = case_of(rng, next(ct))
            k2["kind"] = "grid"
        yield dict(run=base_run(rng, **k2))
