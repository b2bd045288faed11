"""Harnesses on radiative exchange, humid air, appliance sizing, rounding and comfort helpers."""
import numpy as np

SGM, EPS = 5.67e-8, 0.9


def radiation(h):
    """Radiative heat transfer coefficients and mean radiant temperature weights of the rooms."""
    rooms = h.cfg['rooms']
    h.roots(0.5, 4.0)
    n = len(rooms)
    ns = max(rooms) + 1
    a = [h.inp('a%d' % j, 0.05, 500.0) if j in h.cfg['sym'] else h.cfg['fix'][j % len(h.cfg['fix'])] for j in range(n)]
    p = np.zeros((n, ns))
    for j, i in enumerate(rooms):
        p[j, i] = 1
    sf = h.mod('core.shape_factor')
    with h.expect_ok('radiative coefficients can be made'):
        hr = sf.get_h_r_js(a_srf_js=h.arr(a).reshape(-1, 1), p_js_is=p.copy())
        w = sf.get_f_mrt_is_js(a_srf_js=h.arr(a).reshape(-1, 1), h_r_js=hr, p_is_js=p.T.copy())
    hr = list(np.asarray(hr).reshape(-1))
    h.observe('hr', hr)
    c = 4.0 * SGM * 293.15 ** 3
    f = [(1.0 - EPS * c / x) / EPS for x in hr]          # form factors behind the coefficients
    for i in range(ns):
        js = [j for j in range(n) if rooms[j] == i]
        h.check('room %d: form factors sum to one' % i, h.eq(sum(f[j] for j in js), 1.0, 1e-5))
        t = sum(a[j] * hr[j] for j in js)
        for j in range(n):
            if rooms[j] == i:
                h.check('weight[%d,%d]' % (i, j), h.eq(w[i, j] * t, a[j] * hr[j], 1e-6))
                h.check('form factor %d within 0..1' % j, h.between(0.0, f[j], 1.0, 1e-5))
            else:
                h.check('no weight[%d,%d]' % (i, j), h.eq(w[i, j], 0.0, 0.0))
        # micro-sphere: the signed squares (2F-1)|2F-1| of a room's surfaces, plus one, go with the areas
        s = {j: (2.0 * f[j] - 1.0) * abs(2.0 * f[j] - 1.0) + 1.0 for j in js}
        for j in js[1:]:
            h.check('form factors %d and %d go with the areas' % (js[0], j), h.same(s[js[0]] * a[j], s[j] * a[js[0]], 1e-4 * 200.0))


def psych(h):
    m = h.mod('external.psychrometrics')
    lo, hi = h.cfg['t']
    t = h.inp('t', lo, hi)
    p = h.inp('p', 10.0, 20000.0)
    x = h.inp('x', 1e-5, 0.1)
    with h.expect_ok('humid air'):
        pv = m.get_p_vs(t)
        pa = m.get_p_vs_is(h.arr([t, t]))
        pb = m.get_p_vs_is2(h.arr([[t], [20.0], [t], [-5.0]]))
        rh = m.get_h(p, pv)
        xx = m.get_x(p)
        pp = m.get_p_v_r_is_n(h.arr([[x], [2.0 * x]]))
        back = m.get_p_v_r_is_n(h.arr([[xx]]))
        there = m.get_x(m.get_p_v_r_is_n(h.arr([x]))[0])
    T = t + 273.15
    lg = np.log(T) if h.mode == 'real' else h.mod('external.psychrometrics').math.log(T)
    ex = np.exp if h.mode == 'real' else h.mod('external.psychrometrics').math.exp
    co = (-6096.9385, 21.2409642, -0.02711193, 0.00001673952, 2.433502) if lo >= 0 else (-6024.5282, 29.32707, 0.010613863, -0.000013198825, -0.49382577)
    ref = ex(co[0] / T + co[1] + co[2] * T + co[3] * T * T + co[4] * lg)
    h.check('saturation pressure', h.eq(pv, ref, 1e-6 * 2e4))
    for k, v in enumerate([pa[0], pa[1], pb[0, 0], pb[2, 0]]):
        h.check('saturation pressure of a table[%d]' % k, h.eq(v, pv, 1e-6 * 2e4))
    h.check('other entries of a table', h.And(h.between(2338.0, pb[1, 0], 2340.5), h.between(401.0, pb[3, 0], 402.5)))
    h.check('relative humidity', h.eq(rh * pv, 100.0 * p, 1e-6 * 2e4))
    h.check('humidity ratio', h.eq(xx * (101325.0 - p), 0.622 * p, 1e-6))
    h.check('vapour pressure', h.eq(pp[0, 0] * (x + 0.62198), 101325.0 * x, 1e-6))
    h.check('vapour pressure grows with the humidity', h.lt(pp[0, 0], pp[1, 0]))
    h.check('pressure to humidity and back', h.between(p * (1 - 1e-4), back[0, 0], p * (1 + 1e-4)))
    h.check('humidity to pressure and back', h.between(x * (1 - 1e-4), there, x * (1 + 1e-4)))


def rac(h):
    m = h.mod('external.rac')
    a = [h.inp('a%d' % k, 0.1, 300.0) for k in range(2)]
    with h.expect_ok('capacities'):
        qh, qc = m.get_q_rtd(h.arr(a))
        mh, mc = m.get_q_max(qh, qc)
        vx = [m.get_v_max(q) for q in qc]
        vn = [m.get_v_min(v) for v in vx]
        lo = (m.get_q_min_h(), m.get_q_min_c())
    h.check('minimum capacities', h.And(h.eq(lo[0], 500.0, 0.0), h.eq(lo[1], 500.0, 0.0)))
    for k in range(2):
        q = 190.5 * a[k] + 45.6
        h.check('rated cooling[%d]' % k, h.Or(h.And(h.le(q, 5600.0), h.eq(qc[k], q, 1e-6)), h.And(h.ge(q, 5600.0), h.eq(qc[k], 5600.0, 1e-6))))
        h.check('rated heating[%d]' % k, h.eq(qh[k], 1.2090 * qc[k] - 85.1, 1e-6))
        q = 0.8462 * qc[k] + 1205.9
        h.check('greatest cooling[%d]' % k, h.And(h.ge(mc[k], q, 1e-6), h.ge(mc[k], qc[k], 1e-6), h.Or(h.eq(mc[k], q, 1e-6), h.eq(mc[k], qc[k], 1e-6))))
        q = 1.7597 * mc[k] - 413.7
        h.check('greatest heating[%d]' % k, h.And(h.ge(mh[k], q, 1e-6), h.ge(mh[k], qh[k], 1e-6), h.Or(h.eq(mh[k], q, 1e-6), h.eq(mh[k], qh[k], 1e-6))))
        h.check('air flow[%d]' % k, h.And(h.eq(vx[k], 11.076 * (qc[k] / 1000.0) ** 0.3432, 1e-6), h.eq(vn[k], 0.55 * vx[k], 1e-6), h.gt(vn[k], 0.0)))
    h.assume(h.le(a[0], a[1]))
    h.check('larger rooms get no less', h.And(h.le(qc[0], qc[1], 1e-6), h.le(qh[0], qh[1], 1e-6), h.le(mc[0], mc[1], 1e-6), h.le(mh[0], mh[1], 1e-6)))


def rounding(h):
    m = h.mod('convert.general_functions')
    d = h.cfg['digit']
    x = h.inp('x', -1000.0, 1000.0)
    k = 10.0 ** d
    with h.expect_ok('rounding'):
        r = m.round_num(x, d)
        s = m.round_num(-x, d)
    h.check('within half a unit', h.between(-0.5 / k, r - x, 0.5 / k, 1e-9))
    h.check('symmetric', h.Or(h.eq(r, -s, 1e-9)))
    # halves go away from zero
    i = h.iinp('i', 0, 999)
    y = i + h.inp('fr', 0.5, 0.5 + 0.4)
    with h.expect_ok('rounding of halves'):
        u = m.round_num(y, 0)
        v = m.round_num(-y, 0)
    h.check('halves go up', h.And(h.eq(u, i + 1, 1e-9), h.eq(v, -(i + 1), 1e-9)))
    n = h.iinp('n', -100000, 100000)
    with h.expect_ok('rounding of a multiple'):
        w = m.round_num((n + 0.0) / k, d)
    h.check('multiples stay', h.eq(w * k, n, 1e-6))
