"""Seeded generators shared by the properties: input specs and fault plans."""

import gc

UNGRIDDED = ["cis", "aerosol_cci", "cloud_cci", "modis_l2", "cloudsat", "caliop_l1", "caliop_l2", "ascii", "gassp", "earthcare"]
GRIDDED = ["gridded", "modis_l3", "pp", "hadgem"]

READ_ERRNOS = ["EIO", "EIO", "EIO", "ESTALE", "ETIMEDOUT", "EBADF"]
OPEN_ERRNOS = ["EIO", "EMFILE", "EACCES", "ENOENT", "ENFILE"]


def fixture(rng, product=None, nfiles=None, n=None):
    product = product or rng.weighted([("cis", 6), ("aerosol_cci", 3), ("cloud_cci", 2), ("modis_l2", 3), ("cloudsat", 2),
                                       ("caliop_l1", 1), ("caliop_l2", 2), ("ascii", 1), ("gassp", 3), ("gridded", 5), ("modis_l3", 1), ("pp", 2), ("hadgem", 1), ("earthcare", 2)])
    sp = {"product": product, "seed": rng.int(1, 10 ** 6), "nfiles": nfiles or rng.weighted([(1, 3), (2, 4), (3, 2)]),
          "n": n or rng.weighted([(rng.int(4, 40), 5), (rng.int(100, 400), 3), (rng.int(1000, 3000), 2)]),
          "vars": rng.int(1, 3)}
    if rng.chance(.6):
        sp["miss"] = rng.pick([.05, .3])
    if rng.chance(.5):
        sp["cmiss"] = rng.pick([.05, .2])
    if product == "cis":
        sp["coords"] = rng.pick(["lLat", "lLt", "lLatp", "lL"])
        if rng.chance(.3):
            sp["chunks"] = rng.int(2, 5)
        if rng.chance(.3):
            sp["zlib"] = True
        if rng.chance(.3):
            sp["packed"] = True
        if rng.chance(.3):
            sp["ints"] = True
        if rng.chance(.3):
            sp["lon0"] = 0.0
    elif product in ("aerosol_cci", "cloud_cci"):
        if rng.chance(.3):
            sp["longnames"] = True
        if rng.chance(.4):
            sp["valid_range"] = True
    elif product == "modis_l2":
        sp["layers"] = rng.pick([0, 0, 2, 3])
        sp["use3d"] = bool(sp["layers"])
    elif product == "cloudsat":
        sp["noheight"] = rng.chance(.25)
        sp["vd"] = True
    elif product == "caliop_l2":
        sp["column"] = rng.chance(.5)
    elif product == "gassp":
        sp["kind"] = rng.pick(["plane", "ship", "station", "raf"])
        sp["pressure"] = rng.chance(.4)
    elif product == "gridded":
        sp["shape"] = rng.weighted([([rng.int(1, 3), rng.int(3, 6), rng.int(4, 8)], 4), ([rng.int(3, 6), rng.int(4, 8)], 1),
                                    ([2, 2, 3, 4], 1), ([2, rng.int(12, 20), rng.int(20, 40)], 2)])
        if len(sp["shape"]) == 2:
            sp["nfiles"] = 1
        sp["lon0"] = rng.pick([0.0, -180.0, 5.0])
        for k, p in (("bounds", .4), ("aux", .3), ("zlib", .3), ("chunks", .3), ("geopotential", .15), ("latdesc", .2)):
            if rng.chance(p):
                sp[k] = True
        if rng.chance(.3):
            sp["dtype"] = "f4"
    elif product in ("pp", "hadgem"):
        sp["shape"] = [rng.int(1, 3), rng.int(3, 6), rng.int(4, 8)]
        sp["lon0"] = rng.pick([0.0, -180.0])
        sp["chunks"] = True
    elif product == "earthcare":
        sp["n"], sp["levels"], sp["nfiles"] = min(sp["n"], 400), rng.int(2, 4), 1
        for k, p in (("twod", .5), ("nominal", .4), ("chunks", 1)):
            if rng.chance(p):
                sp[k] = 2 if k == "chunks" else True
        sp["heights"] = rng.chance(.7)
    elif product == "modis_l3":
        sp["shape"] = [rng.int(3, 7), rng.int(4, 8)]
    if product in ("caliop_l1", "caliop_l2", "cloudsat"):
        sp["levels"] = rng.int(2, 5)
        sp["n"] = min(sp["n"], 400)
    if product in ("ascii", "gassp"):
        sp["n"] = min(sp["n"], 300)
    return sp


HDF4 = ("modis_l2", "modis_l3", "caliop_l1", "caliop_l2", "cloudsat")


def read_fault(rng, alloc=True, product=None):
    k = rng.weighted([("read", 5), ("open_r", 2), ("alloc", 3 if alloc else 0)])
    f = {"kind": k, "frac": round(rng.random(), 4), "repeat": rng.weighted([(1, 6), (2, 1), (-1, 2)])}
    if k == "read":
        f["action"] = rng.weighted([("errno", 6), ("short", 2), ("eintr", 1)])
        if product in HDF4:          # libdf hides errors while it loads attributes: it then reports fewer of them, with success
            f["action"] = "short"
        f["arg"] = rng.pick(READ_ERRNOS) if f["action"] == "errno" else rng.int(0, 5000)
        if f["action"] == "eintr" and f["repeat"] < 0:
            f["repeat"] = 2
        if f["action"] == "short" and product in HDF4 and rng.chance(.55):
            f = {"kind": "hdf4", "frac": f["frac"], "repeat": f["repeat"], "action": "errno", "arg": 0}
        elif f["action"] == "short" and product in HDF4 and rng.chance(.7):
            f = {"kind": "open_r", "frac": f["frac"], "repeat": f["repeat"], "action": "errno", "arg": rng.pick(OPEN_ERRNOS)}
    elif k == "open_r":
        f["action"], f["arg"] = "errno", rng.pick(OPEN_ERRNOS)
    else:
        f["action"], f["arg"] = "errno", "ENOMEM"
        f["threshold"] = rng.pick([1200, 4000, 12000])
    return f


def resolve(faults, counts):
    """Turn relative fault positions into call numbers, given how many calls of each kind an undisturbed pass makes."""
    out = []
    for f in faults:
        if "budget_frac" in f:
            out.append({"budget": int(f["budget_frac"] * counts.get("bytes", 0))})
            continue
        if "nth" in f:
            out.append(f)
            continue
        c = counts.get(f["kind"], 0)
        if f["kind"] == "alloc":
            c = counts.get("alloc%d" % f.get("threshold", 4000), c)
        if c <= 0:
            continue
        g = {k: v for k, v in f.items() if k != "frac"}
        g["nth"] = min(c - 1, int(f["frac"] * c))
        out.append(g)
    return out


def measure(env, faults, fn, prepare=lambda: None):
    """How many calls of each kind fn(prepare()) makes undisturbed (performed several times, for the sizes of allocations)."""
    counts = {}
    for t in sorted(set(THRESHOLDS) | set(alloc_thresholds(faults))):
        x = prepare()
        with env.window([], alloc_threshold=t) as w:
            env.attempt(fn, x)
        counts = counts or {k: v for k, v in w.counts.items() if k != "alloc"}
        counts["alloc%d" % t] = w.counts["alloc"]
        x = None
        gc.collect()            # an open file would let the libraries answer from what they hold of it
    return counts


def placed(faults, counts):
    return resolve([place(f, counts) for f in faults], counts)


THRESHOLDS = [64, 150, 300, 1200]


def place(f, counts):
    """A fault of a kind the undisturbed operation makes no calls of becomes a failing allocation, if it makes any of those."""
    kind = f.get("kind") if f.get("kind") != "alloc" else "alloc%d" % f["threshold"]
    if kind is None or counts.get(kind):
        return f
    possible = [t for t in THRESHOLDS if counts.get("alloc%d" % t)]
    if not possible:
        return f
    return {"kind": "alloc", "frac": f["frac"], "repeat": f["repeat"], "action": "errno", "arg": "ENOMEM",
            "threshold": possible[int(f["frac"] * 1000) % len(possible)]}


def alloc_thresholds(faults):
    return sorted({f.get("threshold", 4000) for f in faults if f.get("kind") == "alloc"})
