"""C28: the wind field of a storm is a cyclone around its centre.

A complete lattice of storms (latitude, central pressure, radius of maximum winds, speed and
direction of motion) is run through wind.run for every radial profile and boundary layer
model; the fields are compared with what a cyclone must look like and with those of the
neighbouring storms of the lattice."""
import itertools
import logging
import os
import shutil
import warnings

import numpy as np

from .. import common, mpi, world

ENV, LON, RES, MARGIN = 1010.0, 150.0, 0.05, 1.5
PROFILES = ("holland", "powell", "schloemer", "willoughby")
FIELDS = ("kepert", "hubbert", "mcconochie")
AZIMUTHS = (-30., 0., 40., 70., 120.)
BETAS = (1.0, 1.3, 1.8)


def lattice(quick):
    lats = (-30., -12., 12., 30.) if quick else (-35., -20., -8., 8., 20., 35.)
    pcs = (995., 960., 910.) if quick else (995., 970., 940., 900.)
    rmax = (30., 60.) if quick else (25., 45., 70.)
    motion = [(0., 0.)] + ([(25., float(b)) for b in range(0, 360, 45)] if quick else
                           [(15., float(b)) for b in range(0, 360, 45)] + [(35., float(b)) for b in range(0, 360, 30)])
    return lats, [(pc, rm, v, b) for pc in pcs for rm in rmax for v, b in motion]


def config(out, profile, field, lat, thetamax=70., beta=1.3):
    return world.write_config(os.path.join(out, "c.ini"), {
        "WindfieldInterface": {"Margin": MARGIN, "Resolution": RES, "profileType": profile, "windFieldType": field,
                               "Domain": "bounded", "thetaMax": thetamax, "beta": beta, "beta1": 1.5, "beta2": 1.4},
        "Output": {"Path": out}, "Region": {"LocalityName": "x", "gridLimit": world.limit(LON - .1, LON + .1, lat - .1, lat + .1)},
        "Logging": {"LogFile": os.path.join(out, "log"), "LogLevel": "CRITICAL", "ProgressBar": False}})


def wind_run(cfg):
    import wind
    from Utilities.config import reset
    reset()
    mpi.solo()
    wind.run(cfg)


def fields(out, profile, field, lat, storms, thetamax=70., beta=1.3):
    """[(gust, u, v, p)] on the grid around the centre, north up, of each storm (pc, rmax, speed, bearing)."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "tracks"))
    os.makedirs(os.path.join(out, "windfield"))
    ts = [world.track(1, (k + 1, 1), [(LON, lat)], pc=pc, pe=ENV, rmax=rm, speed=v, bearing=b)
          for k, (pc, rm, v, b) in enumerate(storms)]
    world.tracks_nc(os.path.join(out, "tracks", "tracks.00001.nc"), ts)
    r = common.call_forked(wind_run, config(out, profile, field, lat, thetamax, beta), timeout=600)
    if r[0] != "ok":
        return "wind.run failed: %s" % " ".join(map(str, r[1:3]))[:300]
    res = []
    n = int(round(MARGIN / RES)) - 1
    for k in range(len(storms)):
        d = world.read_nc(os.path.join(out, "windfield", "gust.%03d-%05d.nc" % (k + 1, 1)))
        i, j = np.abs(d["lon"] - LON).argmin(), np.abs(d["lat"] - lat).argmin()
        s = np.s_[j - n:j + n + 1, i - n:i + n + 1]
        a = [np.asarray(d[v], float)[s] for v in ("vmax", "ua", "va", "slp")]
        if d["lat"][0] > d["lat"][-1]:
            a = [x[::-1] for x in a]
        res.append(a)
    shutil.rmtree(out, ignore_errors=True)
    return res


def polar(lat):
    n = int(round(MARGIN / RES)) - 1
    d = np.arange(-n, n + 1) * RES * np.pi / 180. * 6371.
    y = np.broadcast_to(d[:, None], (2 * n + 1, 2 * n + 1))
    x = d[None, :] * np.cos(np.radians(lat + y / 6371. * 180 / np.pi))
    return x, y, np.hypot(x, y)


def single(lat, storm, a):
    """What is wrong with one field, and its measures."""
    g, u, v, p = a
    pc, rm, speed, brg = storm
    x, y, r = polar(lat)
    if not all(np.isfinite(z).all() for z in a):
        return "values are not finite", None
    if not np.allclose(np.hypot(u, v), g, rtol=1e-3, atol=1e-3):
        return "wind components and gust speed do not match", None
    sgn = np.sign(lat)
    with np.errstate(all="ignore"):
        tang, rad = sgn * (-y * u + x * v) / r, (x * u + y * v) / r
    n = len(g) // 2
    # pressure: the central one in the middle, rising outwards, the same all around
    if abs(p[n, n] - pc * 100.) > 20. or p.min() < pc * 100. - 20. or p.max() > ENV * 100. + 1.:
        return "the pressure is %.0f Pa in the middle and from %.0f to %.0f" % (p[n, n], p.min(), p.max()), None
    for line in (p[n, n:], p[n, n::-1], p[n:, n], p[n::-1, n]):
        if (np.diff(line) < -1e-2).any():
            return "the pressure falls outwards", None
    bands = [(r >= b) & (r < b + 6.) for b in range(0, 130, 6)]
    for b in bands:
        d = np.ptp(p[b])
        step = 3 * (ENV - pc) * 100. * 6. / rm
        if d > step + 1.:
            return "the pressure differs by %.0f Pa at one distance" % d, None
    ring = (r > 1.3 * rm) & (r < 110.)
    if (tang[ring & (g > 8.)] <= 0).any() and speed == 0.:
        return "winds blow against the sense of cyclones of the hemisphere", None
    if tang[ring].mean() <= 0:
        return "winds blow against the sense of cyclones of the hemisphere", None
    if rad[ring].mean() >= 0 or speed == 0. and (rad[ring] >= 0).any():
        return "winds blow outwards", None
    if speed == 0. and (rad > .02 * g.max())[r > 3.].any():
        return "winds of a storm at rest blow outwards near the centre", None
    peak = r.flat[np.argmax(g)]
    if not .7 * rm - 3. <= peak <= 1.1 * rm + 4.:
        return "the strongest winds are %.0f km from the centre" % peak, None
    if speed == 0.:
        ns, ew = g[ring & (abs(y) > 2 * abs(x))].mean(), g[ring & (abs(x) > 2 * abs(y))].mean()
        if not .95 < ns / ew < 1.05:
            return "the wind of a storm at rest is %.1f to the north and south and %.1f to the east and west" % (ns, ew), None
        for line in (g[n, n:], g[n, n::-1], g[n:, n], g[n::-1, n]):
            d = abs(np.arange(len(line))) * RES * 111.
            if (np.diff(line)[d[:-1] > 1.15 * rm + 6.] > .02).any():
                return "the wind of a storm at rest grows outside the radius of maximum winds", None
    t = np.radians(brg)
    ahead, left = x * np.sin(t) + y * np.cos(t), -(x * np.cos(t) - y * np.sin(t))
    w = ring & (r < 100.)
    return None, dict(gmax=g.max(), left=g[w & (left > 0)].mean() / g[w & (left < 0)].mean(),
                      az=np.degrees(np.arctan2((g * left / r)[w].sum(), (g * ahead / r)[w].sum())))


def group(out, profile, field, lat, storms, thetamax=70., beta=1.3):
    """(text, storm) of the first wrong one or None; measures; the fields of the storms."""
    fs = fields(out, profile, field, lat, storms, thetamax, beta)
    if isinstance(fs, str):
        return (fs, storms[0]), None, None
    ms = {}
    for s, a in zip(storms, fs):
        bad, m = single(lat, s, a)
        if bad:
            return (bad, s), None, None
        ms[s] = m
    for s in storms:
        pc, rm, v, b = s
        rest = ms[pc, rm, 0., 0.]["gmax"]
        if v == 0.:
            weaker = [q for q in storms if q[1:] == s[1:] and q[0] > pc]
            if any(ms[q]["gmax"] >= rest for q in weaker):
                return ("a deeper storm has weaker winds", s), None, None
            continue
        if not rest < ms[s]["gmax"] < rest + 1.35 * 1.1 * v / 3.6 + .5:
            return ("the strongest wind is %.1f, that of the storm at rest %.1f" % (ms[s]["gmax"], rest), s), None, None
        same = [ms[q]["gmax"] for q in storms if q[:3] == s[:3]]
        if max(same) > 1.02 * min(same):
            return ("the strongest wind depends on the direction of motion, %.1f to %.1f" % (min(same), max(same)), s), None, None
        if field == "kepert" and (ms[s]["left"] > 1.) != (lat < 0):
            return ("the stronger winds are on the %s of the motion" % ("left" if ms[s]["left"] > 1. else "right"), s), None, None
        if field != "kepert" and lat < 0:
            d = (ms[s]["az"] - thetamax + 180.) % 360. - 180.
            if abs(d) > 12.:
                return ("the strongest winds are %.0f degrees left of the motion instead of %g" % (ms[s]["az"], thetamax), s), None, None
    return None, ms, dict(zip(storms, fs))


def mirror(field, s):
    """The storm that mirrors s on the other hemisphere."""
    pc, rm, v, b = s
    if v == 0.:
        return s
    return (pc, rm, v, (180. - b) % 360.) if field == "kepert" else None


def pair(j):
    """One latitude and its opposite."""
    out, profile, field, lat, storms = j
    st = dict(n=0, bad=None)
    both = []
    for l in (-lat, lat):
        bad, ms, fs = group(out, profile, field, l, storms)
        st["n"] += len(storms)
        if bad:
            st["bad"] = (bad[0], dict(profile=profile, field=field, lat=l, storm=bad[1], thetamax=70., beta=1.3))
            return st
        both.append(fs)
    for s in storms:
        m = mirror(field, s)
        if m is None:
            continue
        a, b = both[0][s], both[1][m]
        for name, x, y in zip(("gust", "eastward wind", "northward wind", "pressure"), a,
                              (b[0][::-1], b[1][::-1], -b[2][::-1], b[3][::-1])):
            if not np.allclose(x, y, rtol=1e-3, atol=.05 if name != "pressure" else 2.):
                st["bad"] = ("%s differs from that of the mirrored storm in the other hemisphere" % name,
                             dict(profile=profile, field=field, lat=-lat, storm=s, thetamax=70., beta=1.3))
                return st
    return st


def azimuth(j):
    out, profile, field, lat, storms, th = j
    bad, _, _ = group(out, profile, field, lat, storms, th)
    return dict(n=len(storms), bad=bad and (bad[0], dict(profile=profile, field=field, lat=lat, storm=bad[1], thetamax=th, beta=1.3)))


def betas(j):
    """Holland's profile: a larger beta has stronger winds; beta 1 is Schloemer's."""
    out, field, lat, storms = j
    st = dict(n=0, bad=None)
    got = []
    for p, b in [("schloemer", 1.3)] + [("holland", b) for b in BETAS]:
        bad, ms, fs = group(out, p, field, lat, storms, 70., b)
        st["n"] += len(storms)
        if bad:
            st["bad"] = (bad[0], dict(profile=p, field=field, lat=lat, storm=bad[1], thetamax=70., beta=b))
            return st
        got.append((ms, fs))
    for s in storms:
        case = dict(profile="holland", field=field, lat=lat, storm=s, thetamax=70., beta=1.)
        if not all(np.allclose(x, y, rtol=5e-3, atol=.1) for x, y in zip(got[0][1][s], got[1][1][s])):
            st["bad"] = ("Schloemer's profile is not Holland's with a beta of one", case)
        g = [ms[s]["gmax"] for ms, _ in got[1:]]
        if sorted(g) != g:
            st["bad"] = ("the strongest winds for a beta of %s are %s" % (BETAS, g), case)
    return st


def named(j):
    """The other documented profiles make a field at all."""
    out, profile = j
    fs = fields(out, profile, "kepert", -20., [(960., 40., 10., 200.)])
    if isinstance(fs, str):
        return dict(n=1, bad=(fs, dict(named=profile)))
    bad, _ = single(-20., (960., 40., 10., 200.), fs[0])
    return dict(n=1, bad=bad and (bad, dict(named=profile)))


def gradient(j):
    """Winds of the profile itself: the sense of the hemisphere, the same in both, strongest near the
    radius of maximum winds, falling outwards, stronger for deeper storms."""
    out, profile, lats, storms = j
    from wind import windmodels
    st = dict(n=0, bad=None)
    r = np.arange(1., 400., .5)
    more = [1.3] if profile == "holland" else []

    def winds(lat, pc, rm):
        return windmodels.profile(profile)(lat, LON, ENV * 100., pc * 100., rm * 1000., *more).velocity(r * 1000.)
    for lat, (pc, rm) in itertools.product(lats, sorted({s[:2] for s in storms}, reverse=True)):
        v = np.sign(lat) * winds(lat, pc, rm)
        st["n"] += 1
        bad = None
        if not np.isfinite(v).all():
            bad = "values are not finite"
        elif (v < -.01).any():
            bad = "winds blow against the sense of cyclones of the hemisphere"
        elif not np.allclose(v, -np.sign(lat) * winds(-lat, pc, rm), rtol=1e-3, atol=.02):
            bad = "winds differ from those of the mirrored storm in the other hemisphere"
        elif not .8 * rm - 1. <= r[v.argmax()] <= 1.1 * rm + 1.:
            bad = "the strongest winds are %.0f km from the centre" % r[v.argmax()]
        elif (np.diff(v[r > 1.15 * rm]) > .01).any() or not v[r > 3 * rm][0] < .95 * v.max():
            bad = "winds do not fall outside the radius of maximum winds"
        elif (np.diff(v[r < .8 * rm]) < -.01).any() or not v[0] < .5 * v.max():
            bad = "winds do not fall towards the centre"
        elif pc + 10. < ENV and not abs(winds(lat, pc - 5., rm)).max() > v.max():
            bad = "a deeper storm has weaker winds"
        if bad:
            st["bad"] = (bad, dict(gradient=profile, lat=lat, storm=[pc, rm, 0., 0.]))
            return st
    return st


def recorded(profile, lat, pc, rm, r, v, p, rp):
    """True if winds and pressure are those of the two betas of the known finding."""
    dp = (ENV - pc) * 100.
    if profile == "powell":
        bw, bp = [min(2.2, max(.8, 1.881093 - 0.010917 * abs(lat) - 0.005567 * x)) for x in (rm / 1.852, rm)]
    elif profile == "willoughby":
        bw, bp = [1.0036 + 0.0173 * .6252 * np.sqrt(dp) - x * np.log(rm) + 0.0087 * abs(lat) for x in (.0313, .313)]
    else:
        return False
    d = (rm / r) ** bw
    rf = r * 1000. * 7.2921e-5 * abs(np.sin(np.radians(lat)))
    return np.allclose(v, np.sqrt(dp * bw / 1.15 * d * np.exp(-d) + rf ** 2) - rf, rtol=2e-2) and \
        np.allclose(p, pc * 100. + dp * np.exp(-(rm / rp) ** bp), rtol=1e-5)


def balance(j):
    """Winds outside the radius of maximum winds balance the pressure: V^2/r + |f| V = dp/dr / rho."""
    out, profile, lats, storms = j
    from wind import windmodels
    from PressureInterface.pressureProfile import PrsProfile
    st = dict(n=0, bad=None)
    for lat, (pc, rm) in itertools.product(lats, sorted({s[:2] for s in storms})):
        r = np.linspace(1.1 * rm, 8. * rm, 40)
        h = 1e-3 * r
        more = [1.3] if profile == "holland" else []
        v = abs(windmodels.profile(profile)(lat, LON, ENV * 100., pc * 100., rm * 1000., *more).velocity(r * 1000.))
        p = [getattr(PrsProfile(x, ENV * 100., pc * 100., rm, lat, LON, 1.3), profile)() for x in (r - h, r + h)]
        f = 2 * 7.2921e-5 * abs(np.sin(np.radians(lat)))
        have = v * v / (r * 1000.) + f * v
        need = (p[1] - p[0]) / (2 * h * 1000.) / 1.15
        st["n"] += 1
        if not np.allclose(have, need, rtol=.02):
            k = abs(have / need - 1).argmax()
            st["bad"] = ("winds of %.1f m/s at %.0f km do not balance the pressure" % (v[k], r[k]),
                         dict(balance=profile, lat=lat, storm=[pc, rm, 0., 0.]))
            if not recorded(profile, lat, pc, rm, r, v, p[1], r + h):
                return st
            st["bad"][1]["known"] = "balance-" + profile
    return st


def job(j):
    try:
        return globals()[j[0]](j[1:])
    finally:
        shutil.rmtree(j[1], ignore_errors=True)


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import wind  # noqa
    base = ctx.mkdir("w")
    lats, storms = lattice(not ctx.thorough)
    jobs = []

    def put(*j):
        jobs.append((j[0], os.path.join(base, "j%d" % len(jobs))) + j[1:])
    r = ctx.replay
    if r is not None:
        if "balance" in r:
            put("balance", r["balance"], [r["lat"]], [tuple(r["storm"])])
        elif "gradient" in r:
            put("gradient", r["gradient"], [r["lat"]], [tuple(r["storm"])])
        elif "named" in r:
            put("named", r["named"])
        else:
            s = tuple(r["storm"])
            lats, storms = lattice(True)
            storms = sorted({q for q in storms if q[:2] == s[:2]} | {s, (s[0], s[1], 0., 0.), mirror("kepert", s)})
            put("pair", r["profile"], r["field"], abs(r["lat"]), storms)
            put("azimuth", r["profile"], r["field"], r["lat"], storms, r["thetamax"])
            put("betas", r["field"], r["lat"], storms)
    else:
        for p, f, l in itertools.product(PROFILES, FIELDS, [l for l in lats if l > 0]):
            for pc in sorted({s[0] for s in storms}):
                # neighbours in pressure stay together in the storms at rest
                put("pair", p, f, l, [s for s in storms if s[0] == pc or s[2] == 0.])
        for f, th in itertools.product(("hubbert", "mcconochie"), AZIMUTHS):
            put("azimuth", "holland", f, -20., [s for s in storms if s[0] < 990.], th)
        for f, l in itertools.product(FIELDS, (-20., 15.)):
            put("betas", f, l, [s for s in storms if s[2] == 0.])
        for p in PROFILES:
            put("balance", p, lats, storms)
        for p in PROFILES + ("rankine", "jelesnianski"):
            put("gradient", p, (-35., -20., -8., -3., 3., 8., 20., 35.),
                [(float(pc), float(rm)) for pc in range(900, 1006, 15) for rm in (15, 25, 40, 60, 80)])
        for p in ("jelesnianski", "doubleHolland"):
            put("named", p)
    ctx.sample(dict(zip(("central pressure", "radius", "speed", "bearing"), storms[-1])))
    for j, t in zip(jobs, common.pmap(job, jobs)):
        ctx.explored(t["n"], ["%s%d" % (j[:1] + j[2:], k) for k in range(t["n"])],
                     "wind fields; distinct = by profile, boundary layer, latitude and storm")
        if t["bad"]:
            text, case = t["bad"]
            key = case.get("named") or case.get("known")
            ctx.violation("%s: %s" % (case, text), case, key=key)
    ctx.assumptions += ["Hubbert's and McConochie's models place the strongest winds for the southern hemisphere only",
                        "fields within %g degrees of the centre, on a grid of %g degrees" % (MARGIN, RES)]
