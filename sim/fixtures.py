"""Fabricates input files for the real products, straight through netCDF4 / pyhdf (never through cis).

make(env, spec) -> {"files", "vars", "product", "gridded", "truth"}; a spec is a small JSON dict, so that a program
carries everything needed to rebuild its inputs.  "truth" maps variable and coordinate names to per-file lists of
masked arrays as a correct reader has to deliver them (concatenated along the first dimension), where it is known.
"""
import datetime
import os

import numpy as np
import numpy.ma as ma

STD_EPOCH = datetime.datetime(1600, 1, 1)
STD_UNITS = "days since 1600-01-01 00:00:00"
COORD_LETTERS = {"l": "latitude", "L": "longitude", "a": "altitude", "t": "time", "p": "air_pressure"}


def _rng(spec, *extra):
    s = int(spec.get("seed", 1)) * 1000003
    for e in extra:
        s = s * 31 + sum(ord(c) * 7 ** i for i, c in enumerate(str(e)[:6]))
    return np.random.RandomState(s % (2 ** 32))


def _sizes(spec):
    n, k = int(spec.get("n", 30)), int(spec.get("nfiles", 1))
    return [max(2, n + (i * 3) % 5 - (2 if i else 0)) for i in range(k)] if spec.get("ragged", True) else [n] * k


def _values(r, shape, kind="f8", step=1.0):
    """Distinct, easily recognised values: any shift, drop or mix-up changes the result."""
    n = int(np.prod(shape))
    if kind == "i4":
        return (r.permutation(n * 4)[:n] + 10).reshape(shape).astype("i4")
    return (np.round(r.permutation(n * 4)[:n] * 0.25 * step, 6) + 1.0).reshape(shape).astype(kind)


def _mask(r, shape, p):
    m = r.rand(*shape) < p
    if m.all():
        m.flat[0] = False
    return m


def vnames(spec):
    return ["var%d" % i for i in range(int(spec.get("vars", 1)))]


# ------------------------------------------------------------------------------------------------ CIS ungridded

def _cis_coord(r, name, n, spec, i):
    if name == "latitude":
        return np.round(r.uniform(-85, 85, n), 4)
    if name == "longitude":
        lo = spec.get("lon0", -180.0)
        return np.round(r.uniform(lo + 0.5, lo + 359.5, n), 4)
    if name == "altitude":
        return np.round(r.uniform(0, 12000, n), 2)
    if name == "time":
        return np.round(spec.get("t0", 149000.0) + i * 2.0 + np.sort(r.uniform(0, 2, n)), 6)
    if name == "air_pressure":
        return np.round(r.uniform(100, 1010, n), 2)
    raise KeyError(name)


CIS_UNITS = {"latitude": "degrees_north", "longitude": "degrees_east", "altitude": "m", "time": STD_UNITS,
             "air_pressure": "hPa"}
CIS_FILL = -9999.0


def make_cis(d, spec):
    import netCDF4
    letters = spec.get("coords", "lLat").replace("ll", "lL")
    names = [COORD_LETTERS[c] for c in letters]
    files, truth = [], {}
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, "%s%02d.nc" % (spec.get("stem", "u"), i))
        r = _rng(spec, "cis", i)
        with netCDF4.Dataset(p, "w", format="NETCDF4") as nc:
            nc.createDimension("obs", n)
            nc.source = "CIS1.7.9"
            kw = {"chunksizes": (max(1, n // int(spec["chunks"])),)} if spec.get("chunks") else {}
            if spec.get("zlib"):
                kw["zlib"] = True
            for name in names:
                v = nc.createVariable(name, "f8", ("obs",), fill_value=CIS_FILL, **kw)
                v.standard_name, v.units, v.long_name = name, CIS_UNITS[name], "the " + name
                if name == "time":
                    v.calendar = "standard"
                a = ma.masked_array(_cis_coord(r, name, n, spec, i), mask=np.zeros(n, bool))
                if spec.get("whole"):                 # points which sit exactly on limits and cell edges
                    step = {"latitude": 10.0, "longitude": 15.0, "altitude": 500.0, "time": 0.25, "air_pressure": 50.0}[name]
                    a = np.round(a / step) * step
                if spec.get("cmiss") and name in ("latitude", "altitude", "time"):
                    a.mask = _mask(_rng(spec, name, i), (n,), spec["cmiss"])
                v[:] = a
                truth.setdefault(name, []).append(a)
            for j, name in enumerate(vnames(spec)):
                kind = "f8" if not (spec.get("ints") and j % 2) else "i4"
                v = nc.createVariable(name, kind, ("obs",), fill_value=CIS_FILL if kind == "f8" else -9999, **kw)
                v.long_name, v.units = "test variable %d" % j, "kg m-3" if j % 2 == 0 else "1"
                h = spec.get("history", "2001-01-0%dT00:00:00Z made by hand" % (1 + j % 9))
                if h:
                    v.history = h
                v.note = "n%d" % j
                a = ma.masked_array(_values(_rng(spec, name, i), (n,), kind), mask=np.zeros(n, bool))
                if spec.get("miss"):
                    a.mask = _mask(_rng(spec, "m" + name, i), (n,), spec["miss"])
                if spec.get("vrange") and j == 0:
                    top = a.dtype.type(4 * (max(a.size, int(spec.get("n", 0))) // 8 * 8 + 16))
                    if spec["vrange"] == 1:
                        v.valid_min, v.valid_max = a.dtype.type(0), top
                    else:
                        v.valid_range = np.array([0, top], a.dtype)
                if spec.get("packed") and j == 0:
                    sc, of = (0.5, 3.0) if spec["packed"] is True else (0.01, 0.3)
                    v.scale_factor, v.add_offset = sc, of
                    v.set_auto_scale(False)
                    v[:] = a.filled(a.dtype.type(CIS_FILL))
                    a = a * sc + of
                else:
                    v[:] = a
                truth.setdefault(name, []).append(a)
        files.append(p)
    return {"files": files, "vars": vnames(spec), "product": "cis", "gridded": False, "truth": truth, "coords": names}


# ------------------------------------------------------------------------------------------------ CCI

def make_cci(d, spec):
    import netCDF4
    aerosol = spec["product"] == "aerosol_cci"
    files, truth = [], {}
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, "2008061%d%s-%s.nc" % (i, "", "ESACCI-L2P_AEROSOL-x" if aerosol else "ESACCI-L2_CLOUD-x"))
        r = _rng(spec, "cci", i)
        with netCDF4.Dataset(p, "w", format="NETCDF4") as nc:
            dim = "pixel_number"
            nc.createDimension(dim, n)
            ck = {"chunksizes": (max(1, n // int(spec["chunks"])),)} if spec.get("chunks") else {}
            cn = ("lon", "lat", "time") if aerosol and not spec.get("longnames") else ("longitude", "latitude", "time")
            for name, std, lim in zip(cn, ("longitude", "latitude", "time"), (180, 85, None)):
                v = nc.createVariable(name, "f8", (dim,), fill_value=-999.0, **ck)
                v.standard_name = std
                if lim:
                    a = np.round(r.uniform(-lim + 1, lim - 1, n), 4)
                    v.units = "degrees"
                else:
                    a = np.sort(r.uniform(0, 86400 * 3, n)).round(1) + 1.2e9 if aerosol else \
                        np.sort(r.uniform(0, 3, n)).round(6) + 2454629.0
                    v.units = "seconds since 1970-01-01" if aerosol else "Julian Date"
                a = ma.masked_array(a, mask=np.zeros(n, bool))
                if spec.get("cmiss") and std != "longitude":
                    a.mask = _mask(_rng(spec, name, i), (n,), spec["cmiss"])
                v[:] = a
                truth.setdefault(std, []).append(a)
            for j, name in enumerate(vnames(spec)):
                v = nc.createVariable(name, "f4", (dim,), fill_value=-999.0, **ck)
                v.long_name, v.units = "cci %d" % j, "1"
                a = ma.masked_array(_values(_rng(spec, name, i), (n,), "f4"), mask=np.zeros(n, bool))
                if spec.get("miss"):
                    a.mask = _mask(_rng(spec, "m" + name, i), (n,), spec["miss"])
                if spec.get("valid_range"):
                    v.valid_max = np.float32(float(a.max()) - 1.0)
                v[:] = a
                truth.setdefault(name, []).append(a)
        files.append(p)
    return {"files": files, "vars": vnames(spec), "product": "Aerosol_CCI_L2" if aerosol else "Cloud_CCI_L2",
            "gridded": False, "truth": None, "coords": ["longitude", "latitude", "time"]}


# ------------------------------------------------------------------------------------------------ HDF4

def _sds(sd, name, arr, dims, fill=None, **attrs):
    from pyhdf.SD import SDC
    t = {"f4": SDC.FLOAT32, "f8": SDC.FLOAT64, "i2": SDC.INT16, "i4": SDC.INT32}[arr.dtype.str[1:]]
    s = sd.create(name, t, arr.shape)
    for i, dn in enumerate(dims):
        s.dim(i).setname(dn)
    for k, v in attrs.items():
        if isinstance(v, tuple):
            s.attr(k).set(t, list(v))
        else:
            setattr(s, k, v)
    if fill is not None:
        s.setfillvalue(fill)
    s[:] = arr
    s.endaccess()


def make_modis_l2(d, spec):
    from pyhdf.SD import SD, SDC
    files = []
    w = int(spec.get("width", 4))
    k3 = int(spec.get("layers", 0))
    for i, n in enumerate(_sizes(spec)):
        rows = max(2, n // w)
        p = os.path.join(d, "MOD04_L2.A20080%02d.hdf" % i)
        r = _rng(spec, "modis", i)
        sd = SD(p, SDC.WRITE | SDC.CREATE)
        dims = ["Cell_Along_Swath:mod04", "Cell_Across_Swath:mod04"]
        lat = r.uniform(-80, 80, (rows, w)).astype("f4")
        lon = r.uniform(-179, 179, (rows, w)).astype("f4")
        tim = (np.sort(r.uniform(0, 1e5, rows * w)).reshape(rows, w) + 4.8e8).astype("f8")
        if spec.get("cmiss"):
            lat[_mask(_rng(spec, "lat", i), lat.shape, spec["cmiss"])] = -999.0
            tim[_mask(_rng(spec, "tim", i), tim.shape, spec["cmiss"])] = -999.0
        _sds(sd, "Latitude", lat, dims, -999.0, units="Degrees_north", long_name="lat", valid_range=(-90.0, 90.0))
        _sds(sd, "Longitude", lon, dims, -999.0, units="Degrees_east", long_name="lon", valid_range=(-180.0, 180.0))
        _sds(sd, "Scan_Start_Time", tim, dims, -999.0, units="Seconds since 1993-1-1 00:00:00.0 0", long_name="t")
        for j, name in enumerate(vnames(spec)):
            a = (_values(_rng(spec, name, i), (rows, w), "i4") % 30000).astype("i2")
            if spec.get("miss"):
                a[_mask(_rng(spec, "m" + name, i), a.shape, spec["miss"])] = -9999
            _sds(sd, name, a, dims, -9999, units="None", long_name="modis %d" % j, valid_range=(-100, 20000),
                 scale_factor=0.001, add_offset=2.0)
        if k3:
            a = (_values(_rng(spec, "v3", i), (k3, rows, w), "i4") % 30000).astype("i2")
            _sds(sd, "layered", a, ["Solution_Band:mod04"] + dims, -9999, units="None", long_name="3d",
                 scale_factor=0.001, add_offset=0.0)
        sd.end()
        files.append(p)
    return {"files": files, "vars": vnames(spec) + (["layered"] if k3 and spec.get("use3d") else []), "product": "MODIS_L2",
            "gridded": False, "truth": None, "coords": ["latitude", "longitude", "time"]}


def make_modis_l3(d, spec):
    from pyhdf.SD import SD, SDC
    files = []
    ny, nx = spec.get("shape", [5, 6])[-2:]
    for i in range(int(spec.get("nfiles", 1))):
        p = os.path.join(d, "MOD08_D3.A20080%02d.hdf" % i)
        sd = SD(p, SDC.WRITE | SDC.CREATE)
        day = 10 + i
        sd.CoreMetadata = "\n".join(
            "OBJECT = %s\n VALUE = \"%s\"\nEND_OBJECT = %s" % (k, v, k) for k, v in
            (("RANGEBEGINNINGDATE", "2008-06-%02d" % day), ("RANGEBEGINNINGTIME", "00:00:00.0"),
             ("RANGEENDINGDATE", "2008-06-%02d" % day), ("RANGEENDINGTIME", "23:59:59.0")))
        _sds(sd, "XDim", np.linspace(-170, 170, nx).astype("f4"), ["XDim:mod08"], units="degrees", long_name="lon")
        _sds(sd, "YDim", np.linspace(80, -80, ny).astype("f4"), ["YDim:mod08"], units="degrees", long_name="lat")
        for j, name in enumerate(vnames(spec)):
            a = (_values(_rng(spec, name, i), (ny, nx), "i4") % 30000).astype("i2")
            if spec.get("miss"):
                a[_mask(_rng(spec, "m" + name, i), a.shape, spec["miss"])] = -9999
            _sds(sd, name, a, ["YDim:mod08", "XDim:mod08"], -9999, units="1", long_name="l3 %d" % j, scale_factor=0.01,
                 add_offset=0.0, valid_range=(0, 32000))
        sd.end()
        files.append(p)
    return {"files": files, "vars": vnames(spec), "product": "MODIS_L3", "gridded": True, "truth": None,
            "coords": ["latitude", "longitude"]}


def _vdata(p, items):
    from pyhdf.HDF import HDF, HC
    import pyhdf.VS  # noqa
    h = HDF(p, HC.WRITE)
    vs = h.vstart()
    for name, arr, attrs in items:
        t = {"f4": HC.FLOAT32, "f8": HC.FLOAT64, "i2": HC.INT16}[arr.dtype.str[1:]]
        vd = vs.create(name, [(name, t, 1)])
        for k, (at, v) in attrs.items():
            vd.attr(k).set(at, v)
        vd.write([[x] for x in arr.tolist()])
        vd.detach()
    vs.end()
    h.close()


def make_cloudsat(d, spec):
    from pyhdf.SD import SD, SDC
    from pyhdf.HDF import HC
    files = []
    nz = int(spec.get("levels", 3))
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, "20080%02d_CS_2B-CWC_GRANULE_P_R04.hdf" % i)
        r = _rng(spec, "cs", i)
        sd = SD(p, SDC.WRITE | SDC.CREATE)
        if not spec.get("noheight"):
            h = (r.permutation(n * nz).reshape(n, nz)).astype("i2")
            if spec.get("cmiss"):
                h[_mask(_rng(spec, "h", i), h.shape, spec["cmiss"])] = -9999
            _sds(sd, "Height", h, ["nray", "nbin"], -9999, units="m", long_name="height")
        for j, name in enumerate([] if spec.get("noheight") else vnames(spec)):
            a = (_values(_rng(spec, name, i), (n, nz), "i4") % 30000).astype("i2")
            if spec.get("miss"):
                a[_mask(_rng(spec, "m" + name, i), a.shape, spec["miss"])] = -7777
            _sds(sd, name, a, ["nray", "nbin"], -7777, units="mg/m3", long_name="cs %d" % j, factor=10.0, offset=1.0)
        sd.end()
        lat = np.round(r.uniform(-80, 80, n), 3).astype("f4")
        lon = np.round(r.uniform(-179, 179, n), 3).astype("f4")
        pt = np.sort(r.uniform(0, 5000, n)).astype("f4")
        wp = (_values(_rng(spec, "wp", i), (n,), "f4"))
        C = HC.CHAR8
        _vdata(p, [("Latitude", lat, {"units": (C, "degrees"), "long_name": (C, "lat"), "missing": (HC.FLOAT32, -999.0)}),
                   ("Longitude", lon, {"units": (C, "degrees"), "long_name": (C, "lon"), "missing": (HC.FLOAT32, -999.0)}),
                   ("Profile_time", pt, {"units": (C, "seconds"), "missing": (HC.FLOAT32, -999.0)}),
                   ("TAI_start", np.array([4.8e8 + i * 10000.0]), {"units": (C, "seconds"), "missing": (HC.FLOAT64, -999.0)}),
                   ("RVOD_liq_water_path", wp, {"units": (C, "g m^{-2}"), "missing": (HC.FLOAT32, -4444.0)})])
        files.append(p)
    return {"files": files, "vars": ([] if spec.get("noheight") else vnames(spec)) + (["RVOD_liq_water_path"] if spec.get("vd") or spec.get("noheight") else []), "product": "CloudSat",
            "gridded": False, "truth": None, "coords": ["latitude", "longitude", "time"]}


def make_caliop(d, spec):
    from pyhdf.SD import SD, SDC
    from pyhdf.HDF import HC
    files = []
    l2 = spec["product"] == "caliop_l2"
    nz = int(spec.get("levels", 3))
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, ("CAL_LID_L2_05kmAPro-Prov-V3-01.2008-%02d.hdf" if l2 else "CAL_LID_L1-Val-V3.2008-%02d.hdf") % i)
        from pyhdf.HDF import HDF
        import pyhdf.VS  # noqa
        h = HDF(p, HC.WRITE | HC.CREATE)
        vs = h.vstart()
        vd = vs.create("metadata", [("Lidar_Data_Altitudes", HC.FLOAT32, nz)])
        vd.write([[[float(x) for x in np.linspace(20, 0.5, nz)]]])
        vd.detach()
        vs.end()
        h.close()
        r = _rng(spec, "cal", i)
        sd = SD(p, SDC.WRITE)
        nc = 3 if l2 else 1
        for name, arr, un in (("Latitude", r.uniform(-80, 80, (n, nc)).astype("f4"), "degrees"),
                              ("Longitude", r.uniform(-179, 179, (n, nc)).astype("f4"), "degrees"),
                              ("Profile_Time", np.sort(r.uniform(0, 9000, n * nc)).reshape(n, nc) + 4.8e8, "seconds")):
            _sds(sd, name, arr, ["np%d" % n, "c%d" % nc], units=un, format="Float_64" if arr.dtype == "f8" else "Float_32")
        pr = r.uniform(100, 1000, (n, nz)).astype("f4")
        if spec.get("cmiss"):
            pr[_mask(_rng(spec, "pr", i), pr.shape, spec["cmiss"])] = -9999.0
        _sds(sd, "Pressure", pr, ["np%d" % n, "nz%d" % nz], units="hPA", format="Float_32")
        for j, name in enumerate(vnames(spec)):
            a = _values(_rng(spec, name, i), (n, nz), "f4")
            if spec.get("miss"):
                a[_mask(_rng(spec, "m" + name, i), a.shape, spec["miss"])] = -9999.0
            _sds(sd, name, a, ["np%d" % n, "nz%d" % nz], units="km-1", format="Float_32")
        if l2:
            _sds(sd, "Column_thing", _values(_rng(spec, "col", i), (n,), "f4"), ["np%d" % n], units="1", format="Float_32")
        sd.end()
        files.append(p)
    return {"files": files, "vars": vnames(spec) + (["Column_thing"] if l2 and spec.get("column") else []),
            "product": "Caliop_L2" if l2 else "Caliop_L1", "gridded": False, "truth": None,
            "coords": ["latitude", "longitude", "time", "altitude"]}


# ------------------------------------------------------------------------------------------------ text

def make_ascii(d, spec):
    files, truth = [], {}
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, "points%02d.txt" % i)
        r = _rng(spec, "txt", i)
        lat = np.round(r.uniform(-80, 80, n), 3)
        lon = np.round(r.uniform(-179, 179, n), 3)
        alt = np.round(r.uniform(0, 9000, n), 1)
        val = _values(r, (n,))
        with open(p, "w") as f:
            for k in range(n):
                t = datetime.datetime(2008, 6, 1 + i, 0, 0, 0) + datetime.timedelta(minutes=7 * k)
                f.write("%r,%r,%r,%s,%r\n" % (float(lat[k]), float(lon[k]), float(alt[k]), t.strftime("%Y-%m-%dT%H:%M:%S"), float(val[k])))
        files.append(p)
    return {"files": files, "vars": ["value"], "product": "ASCII_Hyperpoints", "gridded": False, "truth": None,
            "coords": ["latitude", "longitude", "altitude", "time"]}


# ------------------------------------------------------------------------------------------------ GASSP / NCAR-RAF

def make_gassp(d, spec):
    import netCDF4
    files = []
    kind = spec.get("kind", "plane")                  # plane | ship | station | raf
    for i, n in enumerate(_sizes(spec)):
        p = os.path.join(d, "g_%s_%02d.nc" % (kind, i))
        r = _rng(spec, "gassp", i)
        with netCDF4.Dataset(p, "w", format="NETCDF4") as nc:
            nc.createDimension("Time", n)
            ck = {"chunksizes": (max(1, n // int(spec["chunks"])),)} if spec.get("chunks") else {}
            if kind == "raf":
                nc.Conventions, nc.ConventionsVersion = "NCAR-RAF/nimbus", "1.3"
                nc.Coordinates = "LON LAT ALT Time"
            else:
                nc.GASSP_Version, nc.Time_Coordinate = "1.2", "Time"
                if kind == "station":
                    nc.Station_Lat, nc.Station_Lon, nc.Station_Altitude = "41.%d degrees north" % i, "-70.5", "80 m asl"
                else:
                    nc.Latitude_Coordinate, nc.Longitude_Coordinate = "LAT", "LON"
                    if kind == "plane":
                        nc.Vertical_Coordinate = "ALT"
            v = nc.createVariable("Time", "f8", ("Time",), **ck)
            v.units = "seconds since 2008-06-%02d 00:00:00" % (i + 1)
            v[:] = np.arange(n) * 3.0
            v = nc.createVariable("LAT", "f8", ("Time",), fill_value=-9999.0, **ck)
            v.units = "degrees_north"
            a = ma.masked_array(np.round(r.uniform(-80, 80, n), 3), mask=np.zeros(n, bool))
            if spec.get("cmiss"):
                a.mask = _mask(_rng(spec, "lat", i), (n,), spec["cmiss"])
            v[:] = a
            v = nc.createVariable("LON", "f8", ("Time",), fill_value=-9999.0, **ck)
            v.units = "degrees_east"
            v[:] = np.round(r.uniform(-179, 179, n), 3)
            v = nc.createVariable("ALT", "f8", ("Time",), fill_value=-9999.0, **ck)
            v.units = "m"
            v[:] = np.round(r.uniform(0, 9000, n), 1)
            if spec.get("pressure"):
                v = nc.createVariable("PSXC", "f8", ("Time",), fill_value=-9999.0, **ck)
                v.units = "hPa"
                v[:] = np.round(r.uniform(100, 1000, n), 1)
            for j, name in enumerate(vnames(spec)):
                v = nc.createVariable(name, "f8", ("Time",), fill_value=-9999.0, **ck)
                v.units, v.long_name = "cm-3", "gassp %d" % j
                a = ma.masked_array(_values(_rng(spec, name, i), (n,)), mask=np.zeros(n, bool))
                if spec.get("miss"):
                    a.mask = _mask(_rng(spec, "m" + name, i), (n,), spec["miss"])
                v[:] = a
        files.append(p)
    return {"files": files, "vars": vnames(spec), "product": "NCAR_NetCDF_RAF", "gridded": False, "truth": None,
            "coords": ["latitude", "longitude", "altitude", "time"]}


# ------------------------------------------------------------------------------------------------ gridded NetCDF

def make_gridded(d, spec):
    """shape: [t, lat, lon] or [lat, lon] or [t, z, lat, lon]; several files split the time dimension."""
    import netCDF4
    shape = list(spec.get("shape", [2, 4, 6]))
    files, truth = [], {}
    k = int(spec.get("nfiles", 1))
    has_t, has_z = len(shape) >= 3, len(shape) >= 4

    def cut(*sizes):
        return {"chunksizes": tuple(max(1, (q + 1) // 2) for q in sizes)} if spec.get("chunks") else {}

    for i in range(k):
        p = os.path.join(d, "%s%02d.nc" % (spec.get("stem", "g"), i))
        with netCDF4.Dataset(p, "w", format="NETCDF4") as nc:
            nc.Conventions = "CF-1.5"
            if spec.get("history") != "":
                nc.history = spec.get("history", "2001-01-01T00:00:00Z made by hand")
            dims = []
            nt = shape[0] if has_t else 0
            if has_t:
                nc.createDimension("time", None if spec.get("unlimited", True) else nt)
                v = nc.createVariable("time", "f8", ("time",), **cut(nt))
                v.standard_name, v.units, v.calendar = "time", "days since 2008-06-01 00:00:00", "standard"
                a = np.arange(nt) * 1.0 + i * nt + 0.5
                v[:] = a
                truth.setdefault("time", []).append(a)
                dims.append("time")
            if has_z:
                nz = shape[1]
                nc.createDimension("alt", nz)
                v = nc.createVariable("alt", "f8", ("alt",), **cut(nz))
                v.standard_name, v.units, v.positive = "altitude", "m", "up"
                v[:] = np.arange(nz) * 500.0
                truth["altitude"] = [np.arange(nz) * 500.0]
                dims.append("alt")
            shape = list(spec.get("shape", [2, 4, 6]))
            ny, nx = shape[-2:]
            nc.createDimension("lat", ny)
            nc.createDimension("lon", nx)
            lat = np.linspace(-80, 80, ny)
            if spec.get("latdesc"):
                lat = lat[::-1]
            lon = float(spec.get("lon0", 0.0)) + np.arange(nx) * (360.0 / nx)
            for nm, std, a, un in (("lat", "latitude", lat, "degrees_north"), ("lon", "longitude", lon, "degrees_east")):
                v = nc.createVariable(nm, "f8", (nm,), **cut(len(a)))
                v.standard_name, v.units = std, un
                v[:] = a
                truth[std] = [a]
                if spec.get("bounds"):
                    if "bnds" not in nc.dimensions:
                        nc.createDimension("bnds", 2)
                    h = abs(a[1] - a[0]) / 2 if len(a) > 1 else 1.0
                    s = 1 if len(a) < 2 or a[1] > a[0] else -1
                    b = nc.createVariable(nm + "_bnds", "f8", (nm, "bnds"), **cut(len(a), 2))
                    bb = np.stack([a - s * h, a + s * h], axis=1)
                    b[:] = np.clip(bb, -90, 90) if nm == "lat" else bb
                    v.bounds = nm + "_bnds"
            dims += ["lon", "lat"] if spec.get("lonfirst") else ["lat", "lon"]
            if spec.get("aux"):
                v = nc.createVariable("oro", "f8", ("lat", "lon"), **cut(ny, nx))
                v.standard_name, v.units = "surface_altitude", "m"
                v[:] = _values(_rng(spec, "oro"), (ny, nx))
            for j, name in enumerate(vnames(spec)):
                kw = {"zlib": True} if spec.get("zlib") else {}
                if spec.get("lonfirst"):
                    shape = shape[:-2] + [nx, ny]
                vdims = list(dims)
                if spec.get("mixed") and j % 2:       # some variables have fewer dimensions
                    vdims, shape = vdims[-2:], shape[-2:]
                else:
                    shape = list(spec.get("shape", [2, 4, 6]))[:-2] + shape[-2:]
                kw.update(cut(*shape))
                kind = spec.get("dtype", "f8")
                v = nc.createVariable(name, kind, tuple(vdims), fill_value=-9999.0, **kw)
                v.long_name, v.units = "test field %d" % j, "kg m-2" if j % 2 == 0 else "1"
                v.note = "n%d" % j
                if spec.get("aux"):
                    v.coordinates = "oro"
                a = ma.masked_array(_values(_rng(spec, name, i), tuple(shape), kind), mask=np.zeros(tuple(shape), bool))
                if spec.get("miss"):
                    a.mask = _mask(_rng(spec, "m" + name, i), tuple(shape), spec["miss"])
                if spec.get("vrange") and j == 0:
                    top = a.dtype.type(4 * (max(a.size, int(spec.get("n", 0))) // 8 * 8 + 16))
                    if spec["vrange"] == 1:
                        v.valid_min, v.valid_max = a.dtype.type(0), top
                    else:
                        v.valid_range = np.array([0, top], a.dtype)
                v[:] = a
                truth.setdefault(name, []).append(a)
            if spec.get("geopotential"):
                v = nc.createVariable("zg", "f8", tuple(dims), **cut(*shape))
                v.standard_name, v.units = "geopotential_height", "m"
                v[:] = _values(_rng(spec, "zg", i), tuple(shape))
        files.append(p)
    return {"files": files, "vars": vnames(spec), "product": "NetCDF_Gridded", "gridded": True, "truth": truth,
            "coords": (["time"] if has_t else []) + (["altitude"] if has_z else []) +
            (["longitude", "latitude"] if spec.get("lonfirst") else ["latitude", "longitude"])}


PP_NAMES = ["air_temperature", "x_wind", "y_wind"]


def make_pp(d, spec):
    """Met Office PP fields (time, latitude, longitude), one file per day or so."""
    import iris
    from iris.coord_systems import GeogCS
    from iris.coords import DimCoord
    from iris.cube import Cube
    shape = list(spec.get("shape", [2, 4, 6]))[-3:]
    shape = [2] * (3 - len(shape)) + shape
    nt, ny, nx = shape
    cs = GeogCS(6371229.0)
    files = []
    names = PP_NAMES[:min(3, int(spec.get("vars", 1)))]
    for i in range(int(spec.get("nfiles", 1))):
        p = os.path.join(d, "p%02d.pp" % i)
        cubes = []
        for name in names:
            a = ma.masked_array(_values(_rng(spec, name, i), (nt, ny, nx), "f4"), mask=np.zeros((nt, ny, nx), bool), fill_value=-1e30)
            if spec.get("miss"):
                a.mask = _mask(_rng(spec, "m" + name, i), (nt, ny, nx), spec["miss"])
            c = Cube(a, standard_name=name, units={"air_temperature": "K", "x_wind": "m s-1", "y_wind": "m s-1"}[name])
            c.add_dim_coord(DimCoord(np.arange(nt) * 6.0 + i * nt * 6.0 + 24, "time", units="hours since 2008-06-01 00:00:00"), 0)
            c.add_dim_coord(DimCoord(np.linspace(-80, 80, ny), "latitude", units="degrees", coord_system=cs), 1)
            c.add_dim_coord(DimCoord(float(spec.get("lon0", 0.0)) + np.arange(nx) * (360.0 / nx), "longitude", units="degrees", coord_system=cs, circular=True), 2)
            cubes.append(c)
        iris.save(cubes, p)
        files.append(p)
    return {"files": files, "vars": names, "product": "HadGEM_PP", "gridded": True, "truth": None, "coords": ["time", "latitude", "longitude"]}


def make_hadgem(d, spec):
    """What CONVSH makes of model output: gridded files of one time step each, with names of their own."""
    sp = dict(spec, shape=[1] + list(spec.get("shape", [1, 4, 6]))[-2:], history=spec.get("history") or "made by convsh")
    fx = make_gridded(d, sp)
    files = []
    for i, f in enumerate(fx["files"]):
        g = os.path.join(d, "xglgaa.pm2008%02d.nc" % (i + 1))
        os.rename(f, g)
        files.append(g)
    return dict(fx, files=files, product="HadGEM_CONVSH")


def make_earthcare(d, spec):
    import netCDF4
    p = os.path.join(d, "ECA_ATL_EBD_2A_0.h5")
    n, nz = _sizes(dict(spec, nfiles=1))[0], int(spec.get("levels", 3))
    r = _rng(spec, "ec")
    twod = bool(spec.get("twod"))
    with netCDF4.Dataset(p, "w", format="NETCDF4") as nc:
        g = nc.createGroup("ScienceData")
        g.createDimension("along_track", n)
        g.createDimension("height", nz)

        def var(name, dims, a, units, **attrs):
            sizes = [n, nz][:len(dims)]
            v = g.createVariable(name, "f8", dims, fill_value=-9999.0, **({"chunksizes": tuple(max(1, q // 2) for q in sizes)} if spec.get("chunks") else {}))
            v.units, v.long_name = units, name
            v[:] = a
        pre = "ellipsoid_" if spec.get("nominal") else ""
        var(pre + "longitude", ("along_track",), np.round(r.uniform(-179, 179, n), 3), "degrees_east")
        var(pre + "latitude", ("along_track",), np.round(r.uniform(-80, 80, n), 3), "degrees_north")
        var("time", ("along_track",), 2.6e8 + np.arange(n) * 2.0, "seconds since 2000-01-01")
        if spec.get("heights", True):
            var("sample_altitude" if spec.get("nominal") else "height", ("along_track", "height"), np.round(r.uniform(0, 9000, (n, nz)), 1), "m")
        for j, name in enumerate(vnames(spec)):
            shape, dims = ((n, nz), ("along_track", "height")) if twod else ((n,), ("along_track",))
            a = ma.masked_array(_values(_rng(spec, name), shape), mask=np.zeros(shape, bool))
            if spec.get("miss"):
                a.mask = _mask(_rng(spec, "m" + name), shape, spec["miss"])
            var(name, dims, a, "1")
    return {"files": [p], "vars": ["ScienceData/" + v for v in vnames(spec)], "product": "EarthCARE_MSI_ATL", "gridded": False, "truth": None,
            "coords": ["latitude", "longitude", "time"]}


MAKERS = {"cis": make_cis, "aerosol_cci": make_cci, "cloud_cci": make_cci, "modis_l2": make_modis_l2,
          "modis_l3": make_modis_l3, "cloudsat": make_cloudsat, "caliop_l1": make_caliop, "caliop_l2": make_caliop,
          "ascii": make_ascii, "gassp": make_gassp, "gridded": make_gridded,
          "pp": make_pp, "hadgem": make_hadgem, "earthcare": make_earthcare}


def make(env, spec, sub="in"):
    d = env.path(sub)
    if not os.path.isdir(d):
        os.makedirs(d)
    return MAKERS[spec["product"]](d, spec)


def truth(fx, name):
    """Concatenated expected values of a variable or coordinate (cis and gridded fixtures only)."""
    parts = fx["truth"][name]
    return parts[0] if len(parts) == 1 else ma.concatenate(parts, axis=0)
