"""Harness bodies on whole runs (core.calc: run-up, main calculation, log)."""
import numpy as np
import pandas as pd

from symx import engine as E
from . import core_common as cc
from .step import rooms, NATIVE, NAMES, sat_x

DAY = 96
KEYS = ('theta_o', 'x_o', 'q_gen', 'x_gen', 'lv', 'n_hum', 'ac', 'q_sol', 'tos')


def profile(h, rd, n):
    """n rows of varying concrete inputs; rows named in cfg['sym'] ({name: [(row, lo, hi)..]}) hold symbols."""
    ns, nb = len(rd['spaces']), len(rd['boundaries'])
    k = np.arange(n)
    base = h.cfg.get('base', {})
    d = {}
    th = base.get('theta_o', 6.0) + 3.0 * np.sin(2.0 * np.pi * k / 96.0) + 0.7 * (k // 96) + 0.013 * (k % 7)
    d['theta_o'] = [float(x) for x in th]
    d['x_o'] = [float(base.get('x_o', 0.005) + 1.0e-5 * (x % 13)) for x in k]
    day = (k % 96 >= 28) & (k % 96 < 72)
    d['q_gen'] = [[float(base.get('q_gen', 600.0) + 30.0 * i + x % 11) for i in range(ns)] for x in k]
    d['x_gen'] = [[float(1.0e-5 * (1 + i) + 1.0e-7 * (x % 5)) for i in range(ns)] for x in k]
    d['lv'] = [[float(0.001 * (x % 3)) for i in range(ns)] for x in k]
    d['n_hum'] = [[float((x // 24 + i) % 3) for i in range(ns)] for x in k]
    d['q_sol'] = [[float(40.0 * (x % 10) * dd) for i in range(ns)] for x, dd in zip(k, day)]
    on = h.cfg.get('ac', ())
    d['ac'] = [[1.0 if (x % 96) in on else 0.0 for i in range(ns)] for x in k]
    gm = h.cfg.get('ground_mean')
    d['tos'] = [[float(th[x] + 0.5 * (j % 4) + 0.1 * (x % 6)) for j in range(nb)] for x in k]
    for nm, rows in h.cfg.get('sym', {}).items():
        for (r, lo, hi) in rows:
            v = h.inp('%s_%d' % (nm, r), lo, hi)
            if r >= n:
                continue
            if nm in ('theta_o', 'x_o'):
                d[nm][r] = v
            else:
                w = nb if nm == 'tos' else ns
                d[nm][r] = [v] * w if nm != 'tos' else [v + float(j) for j in range(nb)]
    if gm:
        mean = sum(d['theta_o']) * (1.0 / n)
        for row in d['tos']:
            for j, b in enumerate(rd['boundaries']):
                if b['is_ground'] == 'true':
                    row[j] = mean
    return d


def write(h, rd, d):
    h.file('mid_data_house.json', rd)
    for nm, f in (('lv', 'local_vent'), ('q_gen', 'heat_generation'), ('x_gen', 'moisture_generation'), ('n_hum', 'occupants'),
                  ('ac', 'ac_demand'), ('q_sol', 'q_trs_sol'), ('tos', 'theta_o_sol')):
        h.file('mid_data_%s.csv' % f, [list(r) for r in d[nm]])
    h.file('weather.csv', pd.DataFrame({'temperature': list(d['theta_o']), 'absolute humidity': list(d['x_o'])}))


def calc(h, what='the calculation completes', **kw):
    core = h.mod('core.core')
    with h.expect_ok(what):
        return core.calc(input_data_dir=h.tmp, **kw)


def opname(x):
    if isinstance(x, str):
        return x
    return getattr(x, 'name', None) or NAMES[int(x)]


def _house(h):
    return cc.building(h.cfg.get('kind', 'one'), **dict(dict(no_dehum=1, c_value=0.0), **h.cfg.get('b', {})))


def col(df, name):
    return list(df[name].values)


def logging(h):
    """Detailed result row n holds the inputs and results of step n; the hourly digest is made of it."""
    rd = _house(h)
    n = h.cfg.get('rows', DAY)
    d = profile(h, rd, n)
    write(h, rd, d)
    ds, dd = calc(h, n_d_main=1, n_d_run_up=h.cfg.get('run_up', 1), n_d_run_up_build=h.cfg.get('build', 0))
    h.check('one detailed row per step', len(dd) == DAY)
    h.check('one digest row per hour', len(ds) == 24)
    ix = pd.date_range(start='1/1/1989', periods=DAY, freq='15min')
    h.check('detailed rows are 15 minutes apart from January 1st', bool((dd.index == ix).all()))
    h.check('digest rows are hours from January 1st', bool((ds.index == ix[::4]).all()))
    t = 1e-9

    def same(what, name, f, tol=1e-7):
        v = col(dd, name)
        h.check(what, h.And(*[h.eq(v[k], f(k), tol) for k in range(DAY)]))
    same('outdoor temperature', 'out_temp', lambda k: d['theta_o'][k])
    same('outdoor humidity', 'out_abs_humid', lambda k: d['x_o'][k])
    for i, s, bs in rooms(rd):
        nm = 'rm%d' % i
        f = s['furniture']
        same('demand[%d]' % i, nm + '_occupancy', lambda k: d['ac'][k][i])
        same('transmitted solar[%d]' % i, nm + '_q_sol_t', lambda k: d['q_sol'][k][i])
        same('internal gain[%d]' % i, nm + '_q_s_except_hum', lambda k: d['q_gen'][k][i])
        same('moisture gain[%d]' % i, nm + '_q_l_except_hum', lambda k: d['x_gen'][k][i], 1e-12)
        same('solar on the furniture[%d]' % i, nm + '_q_s_sol_fun', lambda k: 0.5 * d['q_sol'][k][i])
        tr, tf = col(dd, nm + '_t_r'), col(dd, nm + '_t_fun')
        xr, xf = col(dd, nm + '_x_r'), col(dd, nm + '_x_fun')
        same('heat flow into the furniture[%d]' % i, nm + '_q_s_fun', lambda k: f['heat_cond'] * (tr[k] - tf[k]), 1e-5)
        same('moisture flow into the furniture[%d]' % i, nm + '_q_l_fun', lambda k: f['moisture_cond'] * (xr[k] - xf[k]), 1e-9)
        h.check('furniture temperature follows the inputs of the same row[%d]' % i,
                h.And(*[h.eq(f['heat_capacity'] / 900.0 * (tf[k] - tf[k - 1]), f['heat_cond'] * (tr[k] - tf[k]) + 0.5 * d['q_sol'][k][i], 1e-3)
                        for k in range(1, DAY)]))
        hc, hr, mrt, ot = [col(dd, nm + x) for x in ('_hc_hum', '_hr_hum', '_mrt', '_ot')]
        h.check('operative temperature[%d]' % i, h.And(*[h.eq(ot[k] * (hc[k] + hr[k]), hc[k] * tr[k] + hr[k] * mrt[k], 1e-5) for k in range(DAY)]))
        cool = [k for k in range(DAY)]
        # occupants' heat by the temperature at the end of the previous step (all rooms stay between 10 and 40 C here)
        qh, xh = col(dd, nm + '_q_hum_s'), col(dd, nm + '_q_hum_l')
        lim = []
        for k in range(1, DAY):
            a = d['n_hum'][k][i]
            one = (159.0 - 4.0 * tr[k - 1])
            lim.append(h.And(h.Or(h.eq(qh[k], one * a, 1e-5), h.And(h.le(119.0, one, 1e-6), h.eq(qh[k], 119.0 * a, 1e-5))),
                             h.eq(qh[k] + xh[k] * 2501000.0, 119.0 * a, 1e-5)))
        h.check('occupants\' heat[%d]' % i, h.And(*lim))
        op = [opname(x) for x in col(dd, nm + '_ac_operate')]
        h.check('stopped without demand[%d]' % i, all(o == 'STOP_CLOSE' for k, o in enumerate(op) if d['ac'][k][i] == 0.0))
        if h.cfg.get('ac'):
            h.check('conditioned with demand[%d]' % i, all(o == h.cfg['mode'] for k, o in enumerate(op) if d['ac'][k][i] == 1.0))
        rh = col(dd, nm + '_rh_r')
        for k in h.cfg.get('rh_rows', (10, 50)):
            if not E.has_sym(tr[k]):
                pv = 101325.0 * sat_x(float(tr[k])) / (0.622 + sat_x(float(tr[k])))
                x = xr[k]
                h.check('relative humidity[%d,%d]' % (i, k), h.eq(rh[k] * (pv * 0.01) * (x + 0.622), 101325.0 * x, 1.0))
        for j2, (j, b) in enumerate(bs):
            p = '%s_b%d_' % (nm, j2)
            ts, te, tb = col(dd, p + 't_s'), col(dd, p + 't_e'), col(dd, p + 't_b')
            qa, qc, qr, qs = [col(dd, p + x) for x in ('qiall_s', 'qic_s', 'qir_s', 'qisol_s')]
            same('convective coefficient of %s' % p, p + 'hic_s', lambda k: b['h_c'])
            same('convection of %s' % p, p + 'qic_s', lambda k: b['h_c'] * b['area'] * (tr[k] - ts[k]), 1e-4)
            sa = sum(bb['area'] for jj, bb in bs if bb['is_solar_absorbed'] == 'True')
            same('solar on %s' % p, p + 'qisol_s', lambda k: 0.5 * d['q_sol'][k][i] * b['area'] / sa if b['is_solar_absorbed'] == 'True' else 0.0, 1e-5)
            if b['k_inside'] is None:
                same('rear temperature of %s' % p, p + 't_b', lambda k: b['k_outside'] * d['tos'][k][j], 1e-6)
            if not any(s['equipment'][x]['radiative']['installed'] for x in ('heating', 'cooling')):
                h.check('heat flow of %s is the sum of its parts' % p,
                        h.And(*[h.eq(qa[k] * b['area'], qc[k] + qr[k] + qs[k], 1e-3) for k in range(DAY)]))
    digest(h, rd, ds, dd)
    h.observe('tr', dd['rm0_t_r'].values[-1])
    h.observe('ot', dd['rm0_ot'].values[60])


def digest(h, rd, ds, dd):
    def hour(name, k):
        return col(dd, name)[4 * k:4 * k + 4]
    names = [('out_temp', 'mean', 0.01)]
    for i, s, bs in rooms(rd):
        names += [('rm%d%s' % (i, x), 'mean', 0.01) for x in ('_t_r', '_ot')] + [('rm%d_x_r' % i, 'mean', 0.0001)]
        names += [('rm%d%s' % (i, x), 'sum', 1.0) for x in ('_l_s_c', '_l_s_r', '_l_l_c')]
    for nm, how, q in names:
        v = col(ds, nm)
        full = col(dd, nm)
        c = []
        for k in range(24):
            a = full[4 * k] + full[4 * k + 1] + full[4 * k + 2] + full[4 * k + 3]
            if how == 'mean':
                a = a * 0.25
            c.append(h.And(h.le(v[k] - a, 0.5 * q, 1e-6 * q), h.le(a - v[k], 0.5 * q, 1e-6 * q)))
        h.check('hourly %s of %s' % (how, nm), h.And(*c))
    for i, s, bs in rooms(rd):
        o, full = col(ds, 'rm%d_ac_operate' % i), col(dd, 'rm%d_ac_operate' % i)
        h.check('hourly mode[%d]' % i, all(opname(a) == opname(b) for a, b in zip(o, full[::4])))


def run_up(h):
    """The run-up is the same calculation over the days before the start, taken from the end of the data."""
    rd = _house(h)
    k, m = h.cfg['build'], h.cfg['data']            # run-up days, days of data
    n = m * DAY
    d = profile(h, rd, n)
    write(h, rd, d)
    ds, dd = calc(h, n_d_main=1, n_d_run_up=k, n_d_run_up_build=k)
    # data whose first k days are those replayed by the run-up
    def days(rows, idx):
        return [rows[x * DAY + r] for x in idx for r in range(DAY)]
    idx = [(x - k) % m for x in range(k)] + [0]
    d2 = {nm: days(v, idx) for nm, v in d.items()}
    write(h, rd, d2)
    ds2, dd2 = calc(h, n_d_main=k + 1, n_d_run_up=0, n_d_run_up_build=0)
    h.check('length of the result', len(dd) == DAY and len(dd2) == (k + 1) * DAY)
    for c in dd.columns:
        a, b = col(dd, c), col(dd2, c)[k * DAY:]
        if isinstance(a[0], str) or not isinstance(a[0], (int, float, np.number, E.Sym)):
            if '_remarks' not in c:
                h.check(c, all(opname(x) == opname(y) for x, y in zip(a, b)))
            continue
        if '_rh_r' in c:
            continue
        h.check(c, h.And(*[h.eq(x, y, 1e-9 if '_x_' in c else 1e-4) for x, y in zip(a, b)]))
    h.observe('tr', dd['rm0_t_r'].values[-1])


def start(h):
    """Without a run-up the calculation starts from 15 C everywhere and the humidity of 20 C, 40 %."""
    rd = _house(h)
    d = profile(h, rd, DAY)
    write(h, rd, d)
    ds, dd = calc(h, n_d_main=1, n_d_run_up=0, n_d_run_up_build=0)
    rf = h.mod('initializer.response_factor')
    x0 = 0.4 * sat_x(20.0) / (1.0 + 0.6 * sat_x(20.0) / 0.622)
    for i, s, bs in rooms(rd):
        g = lambda x: col(dd, 'rm%d_%s' % (i, x))[0]                       # noqa: E731
        f = s['furniture']
        h.check('furniture starts at 15 C[%d]' % i, h.eq(f['heat_capacity'] / 900.0 * (g('t_fun') - 15.0),
                                                        f['heat_cond'] * (g('t_r') - g('t_fun')) + 0.5 * d['q_sol'][0][i], 1e-3))
        h.check('furniture humidity at the start[%d]' % i, h.eq((f['moisture_capacity'] / 900.0 * (g('x_fun') - x0)
                                                                - f['moisture_cond'] * (g('x_r') - g('x_fun'))) * 2501000.0, 0.0, 2.0))
        n = d['n_hum'][0][i]
        h.check('occupants at 15 C[%d]' % i, h.eq(g('q_hum_s'), 99.0 * n, 1e-5))
        if not any(s['ventilation']['next_spaces']):
            conv = sum(b['area'] * b['h_c'] * (g('b%d_t_s' % k) - g('t_r')) for k, (j, b) in enumerate(bs))
            v = s['ventilation']['mechanical'] + d['lv'][0][i] + g('v_reak') + g('v_ntrl')
            h.check('air starts at 15 C[%d]' % i, h.eq(s['volume'] * 1206.0 / 900.0 * (g('t_r') - 15.0), conv + 1206.0 * v * (d['theta_o'][0] - g('t_r'))
                    + d['q_gen'][0][i] + g('q_hum_s') + f['heat_cond'] * (g('t_fun') - g('t_r')) + g('l_s_c') + s['beta'] * g('l_s_r'), 1e-3))
        for k, (j, b) in enumerate(bs):
            with h.expect_ok('response factors of boundary %d' % j):
                r = rf.ResponseFactorFactory.create(spec=b['spec']).get_response_factors()
            if b['k_inside'] is None and b['is_ground'] == 'false':
                rear = b['k_outside'] * d['tos'][0][j]
                ts = float(r.rfa0) * g('b%d_qiall_s' % k) + (float(r.rft0) + float(np.sum(np.asarray(r.rft1, dtype=float)))) * rear
                h.check('no history at the start[%d]' % j, h.eq(g('b%d_t_s' % k), ts, 1e-5))
    h.observe('tr', dd['rm0_t_r'].values[-1])


def ground(h):
    """The surface temperature of ground elements follows from the outdoor temperature history of the ground-only run-up."""
    rd = _house(h)
    m = h.cfg['data']
    d = profile(h, rd, m * DAY)
    write(h, rd, d)
    R = h.cfg['run_up']
    ds, dd = calc(h, n_d_main=1, n_d_run_up=R, n_d_run_up_build=0)
    rf = h.mod('initializer.response_factor')
    to = d['theta_o']
    mean = sum(to) * (1.0 / len(to))
    for i, s, bs in rooms(rd):
        for k, (j, b) in enumerate(bs):
            if b['is_ground'] != 'true':
                continue
            with h.expect_ok('response factors of boundary %d' % j):
                r = rf.ResponseFactorFactory.create(spec=b['spec']).get_response_factors()
            a1, row = [np.asarray(x, dtype=float) for x in (r.rfa1, r.row)]
            a0 = float(r.rfa0)
            hi = b['h_c'] + float(col(dd, 'rm%d_b%d_hir_s' % (i, k))[0])
            q = 0.0
            t = [0.0] * 12
            for n in range(-R * DAY, 0):
                t = [float(a1[x]) * q + float(row[x]) * t[x] for x in range(12)]
                ts = (to[n] * (a0 * hi) + sum(t) + mean) * (1.0 / (1.0 + a0 * hi))
                q = (to[n] - ts) * hi
            ts, qs = col(dd, 'rm%d_b%d_t_s' % (i, k)), col(dd, 'rm%d_b%d_qiall_s' % (i, k))
            for n in range(h.cfg.get('check', 8)):
                t = [float(a1[x]) * q + float(row[x]) * t[x] for x in range(12)]
                q = qs[n]
                h.check('ground surface temperature[%d,%d]' % (j, n), h.eq(ts[n], q * a0 + sum(t) + mean, 1e-4))
    h.observe('tr', dd['rm0_t_r'].values[-1])


def ground_run_up(h):
    """Building part of the run-up = the same days at the head of the main calculation (same ground-only days before)."""
    rd = _house(h)
    R, B = h.cfg['run_up'], h.cfg['build']
    d = profile(h, rd, (R + 1) * DAY)
    write(h, rd, d)
    ds, dd = calc(h, n_d_main=1, n_d_run_up=R, n_d_run_up_build=B)
    days = list(range(R + 1 - B, R + 1)) + [0] + list(range(1, R + 1 - B))
    d2 = {nm: [v[x * DAY + r] for x in days for r in range(DAY)] for nm, v in d.items()}
    write(h, rd, d2)
    ds2, dd2 = calc(h, n_d_main=B + 1, n_d_run_up=R - B, n_d_run_up_build=0)
    h.check('length of the result', len(dd) == DAY and len(dd2) == (B + 1) * DAY)
    for c in dd.columns:
        if c.endswith(('_t_s', '_qiall_s', '_t_r', '_t_fun', '_t_b', '_t_e', '_mrt', '_l_s_c', '_l_s_r')):
            a, b = col(dd, c), col(dd2, c)[B * DAY:]
            h.check(c, h.And(*[h.eq(x, y, 1e-4) for x, y in zip(a, b)]))
    h.observe('tr', dd['rm0_t_r'].values[-1])


def order(h):
    """A whole calculation (run-up and main) of the house listed in another order gives every room and surface the same results."""
    rd = _house(h)
    d = profile(h, rd, h.cfg['data'] * DAY)
    rp, bp = h.cfg['perm']
    res = []
    for k, r in enumerate((rd, cc.permuted(rd, h.cfg['perm']))):
        if k:
            d = {nm: v if nm in ('theta_o', 'x_o') else [[row[o] for o in (bp if nm == 'tos' else rp)] for row in v] for nm, v in d.items()}
        write(h, r, d)
        res.append((calc(h, n_d_main=1, n_d_run_up=h.cfg['run_up'], n_d_run_up_build=h.cfg['build']), {
            j if not k else bp[j]: 'rm%d_b%d_' % (i, m) for i, s, bs in rooms(r) for m, (j, b) in enumerate(bs)}))
    (ra, ca), (rb, cb) = res
    for part, (a, b) in enumerate(zip(ra, rb)):
        pairs = [('out_temp', 'out_temp')] + [(c, 'rm%d_%s' % (n, c.split('_', 1)[1])) for n, o in enumerate(rp) for c in a.columns
                                              if c.startswith('rm%d_' % o) and not c.startswith('rm%d_b' % o)]
        if part:
            pairs += [(ca[j] + c, cb[j] + c) for j in ca for c in ('t_s', 't_e', 't_b', 'qiall_s', 'qic_s', 'qir_s', 'qisol_s')]
        for p, q in pairs:
            h.check('%s present in both tables' % p, p in a.columns and q in b.columns)
            x, y = col(a, p), col(b, q)
            if isinstance(x[0], str) or not isinstance(x[0], (int, float, np.number, E.Sym)):
                if '_remarks' not in p and '_name' not in p:
                    h.check(p, all(opname(u) == opname(v) for u, v in zip(x, y)))
                continue
            if '_rh_r' in p:
                continue
            t = (1e-9 if '_x_' in p else 1e-4) if part else (0.00011 if '_x_' in p else 1.0 if '_l_' in p else 0.011)
            h.check(p + ('' if part else ' (hourly)'), h.And(*[h.eq(u, v, t) for u, v in zip(x, y)]))
    h.observe('tr', ra[1]['rm0_t_r'].values[-1])


def files(h):
    """Result files are written exactly when asked for and hold the returned tables."""
    rd = _house(h)
    d = profile(h, rd, DAY)
    write(h, rd, d)
    si, de = h.cfg['simple'], h.cfg['detail']
    ds, dd = calc(h, n_d_main=1, n_d_run_up=1, n_d_run_up_build=0, output_data_dir=h.tmp, show_simple_result=si, show_detail_result=de)
    for want, fn, df in ((si, 'result_digest.csv', ds), (de, 'result_detail.csv', dd)):
        f = h.frame(fn)
        h.check('%s written when asked for' % fn, (f is not None) == want)
        if f is None:
            continue
        h.check('%s has the columns of the table' % fn, [str(x) for x in f.columns] == [str(x) for x in df.columns])
        h.check('%s has the rows of the table' % fn, [str(x) for x in f.index] == [str(x) for x in df.index])
        for c in df.columns:
            a, b = col(f, c), col(df, c)
            if isinstance(b[0], (float, np.floating, E.Sym)):
                h.check('%s %s' % (fn, c), h.And(*[h.eq(x, y, 1e-9) for x, y in zip(a, b)]))
    h.observe('tr', dd['rm0_t_r'].values[-1])
