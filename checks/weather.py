"""Harnesses on weather data and the sun's position."""
import contextlib
import math
import os

import numpy as np

NH = {'1h': 1, '30m': 2, '15m': 4}


def package_file(h, mod, rel, rows):
    """Replace a data file that lies beside a module of the package (context manager)."""
    m = h.mod(mod)
    d = os.path.dirname(m.__file__)
    if h.mode == 'sym':
        h.world.vfs.files[os.path.join(d, rel)] = rows
        return contextlib.nullcontext()
    new = os.path.join(h.tmp, 'pkg')
    h.file('pkg/' + rel, rows)

    @contextlib.contextmanager
    def cm():
        old = m.__file__
        m.__file__ = os.path.join(new, os.path.basename(old))
        try:
            yield
        finally:
            m.__file__ = old
    return cm()


RANGE = [(-25.0, 38.0), (0.0, 1000.0), (0.0, 500.0), (0.0, 150.0), (0.5, 24.0)]


def table(h, hours):
    """An hourly data file: fixed values that differ from hour to hour, symbolic ones in the given hours."""
    rows = [['station'] + [''] * 6, ['date', 'time', 'temp', 'dn', 'sky', 'rn', 'x']]
    data = np.empty((8760, 5), dtype=object)
    for k in range(8760):
        v = [10.0 + 12.0 * math.sin(k / 1391.0) + 4.0 * math.sin(k / 3.7), float(k % 700), float((k * 7) % 311), 30.0 + (k % 53),
             5.0 + (k % 97) * 0.1]
        if k in hours:
            v = [h.inp('v%d_%d' % (k, i), *RANGE[i]) for i in range(5)]
        data[k] = v
        rows.append(['d%d' % (k // 24 + 1), '%d' % (k % 24 + 1)] + list(v))
    return rows, data


def oracle(data, n):
    """n values per hour: hourly values are those at the end of each hour (24:00 of 31 December stands for 0:00 of 1 January)."""
    out = []
    for i in range(5):
        col = data[:, i] if i < 4 else data[:, i] / 1000.0
        o = []
        for k in range(8760):
            a, b = col[k - 1], col[k]
            for j in range(n):
                o.append(a * (1.0 - j / n) + b * (j / n))
        out.append(o)
    return out


NAMES = ['temperature', 'normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation', 'absolute humidity']
TOL = [0.0005 + 1e-9, 1e-6, 1e-6, 1e-6, 0.0000005 + 1e-12]


def amedas(region):
    d = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'heat_load_calc', 'weather', 'expanded_amedas')
    f = [x for x in sorted(os.listdir(d)) if x.startswith('%02d' % region)]
    return f[0]


def interpolation(h):
    iv, region = h.cfg['interval'], h.cfg['region']
    rows, data = table(h, h.cfg['hours'])
    w = h.mod('weather.weather')
    with package_file(h, 'weather.weather_data', 'expanded_amedas/' + amedas(region), rows):
        with h.expect_ok('weather can be made'):
            dd = w.make_weather(region=region, interval=iv, csv_output=True, output_data_dir=h.tmp)
    n = NH[iv]
    h.check('one row per %d minutes of the year' % (60 // n), len(dd) == 8760 * n)
    if len(dd) != 8760 * n:
        return
    ix = dd.index
    h.check('first row at 1 January 0:00', (ix[0].month, ix[0].day, ix[0].hour, ix[0].minute) == (1, 1, 0, 0))
    h.check('rows equally spaced over one year', (ix[-1] - ix[0]).total_seconds() == (8760 * n - 1) * 3600.0 / n)
    ref = oracle(data, n)
    out = h.frame('weather.csv') if h.mode == 'sym' else None
    if h.mode == 'real':
        import pandas as pd
        out = pd.read_csv(os.path.join(h.tmp, 'weather.csv'), index_col=0, encoding='utf-8')
    for i, nm in enumerate(NAMES):
        got = dd[nm].values
        rest = True
        for k in range(8760 * n):
            a, b = got[k], ref[i][k]
            if k // n in h.cfg['hours'] or (k // n - 1) % 8760 in h.cfg['hours']:
                h.check('%s[%d]' % (nm, k), h.eq(a, b, TOL[i]))
            elif isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
                rest = rest and abs(a - b) <= TOL[i]
            else:
                rest = False
        h.check('%s of the other hours' % nm, rest)
        h.observe(nm, [got[k] for k in range(0, 8760 * n, 997)])
        cs = out[nm].values
        k = n * h.cfg['hours'][0] + (1 if n > 1 else 0)
        h.check('weather.csv holds the same %s' % nm, h.eq(cs[k], got[k], 1e-9))


def regions(h):
    """Each region takes its own data file and its own place."""
    rl = h.mod('weather.region_location')
    w = h.mod('weather.weather_data')
    # (latitude, longitude) of the cities of the eight regions (to 0.3 degrees): Kitami .. Naha
    city = [(43.8, 143.9), (43.2, 141.8), (39.7, 141.15), (36.65, 138.2), (36.55, 139.9), (34.65, 133.9), (31.9, 131.4), (26.2, 127.7)]
    for r in range(1, 9):
        with h.expect_ok('place of region %d' % r):
            phi, lam = rl.get_phi_loc_and_lambda_loc(region=r)
        h.check('latitude of region %d' % r, abs(math.degrees(phi) - city[r - 1][0]) < 0.3)
        h.check('longitude of region %d' % r, abs(math.degrees(lam) - city[r - 1][1]) < 0.3)
    t = h.inp('t', -20.0, 35.0)
    r = h.cfg['region']
    rows = [['', ''] + [''] * 5, [''] * 7] + [['d', '0', 1.0, 2.0, 3.0, 4.0, 5.0] for _ in range(8760)]
    rows[2 + 4000][2] = t
    with package_file(h, 'weather.weather_data', 'expanded_amedas/' + amedas(r), rows):
        with h.expect_ok('weather of region %d' % r):
            o = w.load(region=r, interval='1h')
    h.check('data file of region %d' % r, h.eq(o[0][4001], t, 1e-9))
    h.observe('t', [o[0][4001]])


@contextlib.contextmanager
def _patched(m, **kw):
    old = {k: getattr(m, k) for k in kw}
    for k, v in kw.items():
        setattr(m, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(m, k, v)


def _spencer(d):
    """Declination (deg) and equation of time (min) by Spencer's series."""
    g = 2 * math.pi * (d - 1) / 365.0
    de = 0.006918 - 0.399912 * math.cos(g) + 0.070257 * math.sin(g) - 0.006758 * math.cos(2 * g) + 0.000907 * math.sin(2 * g) \
        - 0.002697 * math.cos(3 * g) + 0.00148 * math.sin(3 * g)
    et = 229.18 * (0.000075 + 0.001868 * math.cos(g) - 0.032077 * math.sin(g) - 0.014615 * math.cos(2 * g) - 0.04089 * math.sin(2 * g))
    return math.degrees(de), et


def _sc(h, x):
    """sine and cosine, symbolic or not"""
    from symx import engine as E
    if isinstance(x, E.Sym):
        return E.sfun('sin', x), E.sfun('cos', x)
    return math.sin(x), math.cos(x)


def sun(h):
    """Altitude and azimuth at a step of the year are those of a sun with the day's declination and hour angle."""
    s = h.mod('weather.solar_position')
    phi = math.radians(1.0) * h.inp('latitude', 20.0, 50.0)
    lam = math.radians(1.0) * h.inp('longitude', 122.0, 154.0)
    days, times = h.cfg['days'], h.cfg['times']
    n = len(days)
    sp = [_spencer(d) for d in days]
    tm = [h.inp('t%d' % k, 0.0, 23.99) if t is None else t for k, t in enumerate(times)]
    dn = np.array(days)
    with _patched(s, get_d_ns=lambda *a, **k: dn, get_t_m_ns=lambda *a, **k: h.arr(tm)):
        with h.expect_ok('sun position'):
            hs, as_ = s.calc_solar_position(phi_loc=phi, lambda_loc=lam, interval='15m')
    sph, cph = _sc(h, phi)
    h.check('one value per step', len(hs) == n and len(as_) == n)
    for k in range(n):
        if isinstance(as_[k], float) and math.isnan(as_[k]):
            h.check('azimuth missing only with the sun overhead %d' % days[k], h.eq(_sc(h, hs[k])[0], 1.0, 1e-9))
            continue
        sh, ch = _sc(h, hs[k])
        sa, ca = _sc(h, as_[k])
        # direction of the sun: up, west, south (everything times cos(latitude) > 0, which keeps the algebra polynomial)
        up, west, south = sh * cph, ch * sa * cph, ch * ca * cph
        # rotate to the equatorial frame: towards the pole, and in the equatorial plane
        pole = up * sph - south * cph
        eq = up * cph + south * sph
        sd = math.sin(math.radians(sp[k][0]))
        h.check('declination of day %d' % days[k], h.between((sd - 0.009) * cph, pole, (sd + 0.009) * cph))
        # hour angle from Japanese standard time (135 E) and the equation of time
        om = ((tm[k] - 12.0) * 15.0 + sp[k][1] / 4.0) * math.radians(1.0) + lam - math.radians(135.0)
        so, co = _sc(h, om)
        # perpendicular and parallel components to the expected hour angle (1.5 minutes = 0.0066 rad)
        h.check('hour angle of day %d' % days[k], h.between(-0.0075 * cph, west * co - eq * so, 0.0075 * cph))
        h.check('side of day %d' % days[k], h.ge(eq * co + west * so, 0.9 * cph))
        h.observe('h%d' % k, hs[k])
        h.observe('a%d' % k, as_[k])


def calendar(h):
    """Day number and clock time of every step of the year (no inputs beyond the interval)."""
    s = h.mod('weather.solar_position')
    lat = h.inp('latitude', 30.0, 45.0)
    for iv, n in NH.items():
        d, t = s.get_d_ns(interval=iv), s.get_t_m_ns(interval=iv)
        k = np.arange(8760 * n)
        h.check('day of every step ' + iv, len(d) == 8760 * n and bool((np.asarray(d, dtype=float) == k // (24 * n) + 1).all()))
        h.check('clock time of every step ' + iv, len(t) == 8760 * n and
                bool((np.abs(np.asarray(t, dtype=float) - (k % (24 * n)) / n) < 1e-9).all()))
    del lat
