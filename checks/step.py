"""Harness bodies on one simulation step (sequence.run_tick on top of the real pre-calculation)."""
import numpy as np

from symx import engine as E
from . import core_common as cc

CP, RHO, LW = 1005.0, 1.2, 2501000.0
AIR = ('q_gen', 'theta_o', 'n_hum', 'q_sol', 'tos', 'ac', 'theta_r', 'mrt', 'term', 'q_srf', 'theta_frt', 'theta_ei')
MOIST = ('x_gen', 'x_o', 'n_hum', 'theta_r', 'x_r', 'x_frt')
NATIVE = ('initializer.response_factor', 'core.shape_factor')


def _go(h, sym, n_rows=1):
    o = dict(h.cfg.get('b', {}))
    rd = cc.building(h.cfg.get('kind', 'one'), **o)
    pp, ppg = cc.setup(h, rd, n=n_rows, sym=sym, const=h.cfg.get('const'))
    c = cc.state(h, pp, h.cfg['modes'], sym=sym, const=h.cfg.get('const'))
    c2, lg = cc.step(h, pp, c, n_steps=n_rows)
    return rd, pp, c, c2, lg


def rooms(rd):
    return [(i, s, [(j, b) for j, b in enumerate(rd['boundaries']) if b['connected_space_id'] == i])
            for i, s in enumerate(rd['spaces'])]


NAMES = {1: 'COOLING', 2: 'HEATING', 3: 'STOP_OPEN', 4: 'STOP_CLOSE'}


def mode_name(lg, i, n=0):
    v = lg.operation_mode[i, n]
    return getattr(v, 'name', None) or NAMES[int(v)]


def v_out(h, s, i, lg):
    return s['ventilation']['mechanical'] + h.sched['lv'][0][i] + lg.v_reak_is_ns[i, 0] + lg.v_ntrl_is_ns[i, 0]


def air_balance(h):
    """Sensible heat balance of the room air and of the furniture over one step."""
    sym = tuple(h.cfg.get('sym', AIR)) + tuple(h.cfg.get('more', ()))
    rd, pp, c, c2, lg = _go(h, sym)
    for i, s, bs in rooms(rd):
        th, th0 = c2.theta_r_is_n[i, 0], c.theta_r_is_n[i, 0]
        h.check('logged temperature[%d]' % i, h.eq(lg.theta_r[i, 0], th, 1e-9))
        conv = sum(b['area'] * b['h_c'] * (lg.theta_s[j, 0] - th) for j, b in bs)
        v = v_out(h, s, i, lg)
        f = s['furniture']
        tf, tf0 = c2.theta_frt_is_n[i, 0], c.theta_frt_is_n[i, 0]
        nxt = sum(v_ij * (c2.theta_r_is_n[k, 0] - th) for k, v_ij in enumerate(s['ventilation']['next_spaces']))
        res = s['volume'] * CP * RHO / 900.0 * (th - th0) - conv - CP * RHO * v * (h.sched['theta_o'][0] - th) \
            - h.sched['q_gen'][0][i] - lg.q_hum[i, 0] - f['heat_cond'] * (tf - th) - lg.l_cs[i, 0] \
            - s['beta'] * lg.l_rs[i, 0]
        if any(s['ventilation']['next_spaces']):
            continue
        h.check('air heat balance[%d]' % i, h.eq(res, 0.0, 1e-3))
        res = f['heat_capacity'] / 900.0 * (tf - tf0) - f['heat_cond'] * (th - tf) - 0.5 * h.sched['q_sol'][0][i]
        h.check('furniture heat balance[%d]' % i, h.eq(res, 0.0, 1e-3))
        m = mode_name(lg, i)
        h.check('window flow only when open[%d]' % i,
                h.eq(lg.v_ntrl_is_ns[i, 0], s['ventilation']['natural'] if m == 'STOP_OPEN' else 0.0, 1e-12))
    h.observe('theta_r', c2.theta_r_is_n)
    h.observe('l_cs', lg.l_cs)
    h.observe('theta_s', lg.theta_s)


def moisture_balance(h):
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg.get('sym', MOIST)) + tuple(h.cfg.get('more', ())))
    for i, s, bs in rooms(rd):
        x, x0 = c2.x_r_is_n[i, 0], c.x_r_is_n[i, 0]
        xf, xf0 = c2.x_frt_is_n[i, 0], c.x_frt_is_n[i, 0]
        v = v_out(h, s, i, lg)
        f = s['furniture']
        if any(s['ventilation']['next_spaces']):
            continue
        # scaled to W of latent heat
        res = RHO * s['volume'] / 900.0 * (x - x0) - RHO * v * (h.sched['x_o'][0] - x) - h.sched['x_gen'][0][i] \
            - lg.x_hum[i, 0] - f['moisture_cond'] * (xf - x)
        h.check('moisture balance[%d]' % i, h.eq(res * LW - lg.l_cl[i, 0], 0.0, 1e-2))
        res = f['moisture_capacity'] / 900.0 * (xf - xf0) - f['moisture_cond'] * (x - xf)
        h.check('furniture moisture balance[%d]' % i, h.eq(res * LW, 0.0, 1e-2))
        h.check('logged humidity[%d]' % i, h.eq(lg.x_r[i, 0], x, 1e-12))
        if h.cfg.get('cover', True):
            h.cover('room dehumidified', h.lt(lg.l_cl[i, 0], -1.0))
        if h.cfg.get('cover0', False):
            h.cover('room not dehumidified', h.eq(lg.l_cl[i, 0], 0.0, 1e-9))
    h.observe('x_r', c2.x_r_is_n)
    h.observe('l_cl', lg.l_cl)


def dehumidification(h):
    """Latent load: only ever removes moisture, only while the air is sensibly cooled, and never dries the air below what
    the coil delivers."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg.get('sym', MOIST)) + tuple(h.cfg.get('more', ())))
    for i, s, bs in rooms(rd):
        cl, cs = lg.l_cl[i, 0], lg.l_cs[i, 0]
        h.check('moisture is only removed[%d]' % i, h.le(cl, 0.0, 1e-6))
        h.check('no dehumidification without sensible cooling[%d]' % i, h.Or(h.le(cs, -1.0e-3), h.eq(cl, 0.0, 1e-6)))
        if mode_name(lg, i) != 'COOLING':
            h.check('no dehumidification outside cooling[%d]' % i, h.eq(cl, 0.0, 1e-6))
        if not s['equipment']['cooling']['convective']['installed']:
            h.check('no dehumidification without convective cooling[%d]' % i, h.eq(cl, 0.0, 1e-6))
        elif h.cfg.get('cover', True) and i == 0:
            h.cover('room dehumidified', h.lt(cl, -1.0))
            if h.cfg.get('cover0', False):
                h.cover('sensible cooling without dehumidification',
                        h.And(h.lt(cs, -10.0), h.eq(cl, 0.0, 1e-6)))
        if s['equipment']['cooling']['convective']['installed']:
            # fan flow interpolated between (q_min, v_min) and (q_max, v_max); a fifth of it bypasses the coil, the rest
            # leaves saturated at the coil temperature (evaluated concretely below, where the sensible load is concrete)
            if not E.has_sym(cs) and not E.has_sym(c2.theta_r_is_n[i, 0]) and float(cs) < -1.0e-3:
                k = s['equipment']['cooling']['convective']
                v = (k['v_min'] + (k['v_max'] - k['v_min']) / (k['q_max'] - k['q_min']) * (-float(cs) - k['q_min'])) / 60.0
                tc = float(c2.theta_r_is_n[i, 0]) + float(cs) / (CP * RHO * v * 0.8)
                xc = sat_x(tc)
                x = c2.x_r_is_n[i, 0]
                h.check('latent load is what the coil condenses[%d]' % i,
                        h.Or(h.eq(cl, 0.0, 1e-6), h.eq(cl, (xc - x) * (RHO * v * 0.8 * LW), 1.0)))
                h.check('air not dried below the coil outlet[%d]' % i, h.Or(h.eq(cl, 0.0, 1e-6), h.le(xc, x, 1e-9)))
                h.check('moisture is condensed whenever the coil is colder than the dew point[%d]' % i,
                        h.Or(h.le(x, xc, 1e-7), h.lt(cl, 0.0)))
    h.observe('x_r', c2.x_r_is_n)
    h.observe('l_cl', lg.l_cl)


def sat_x(t):
    """Saturated humidity ratio at t degC (Sonntag vapour pressure over water / ice, 101325 Pa)."""
    import math
    k = t + 273.15
    a = (-6096.9385, 21.2409642, -0.02711193, 0.00001673952, 2.433502) if t >= 0.0 else \
        (-6024.5282, 29.32707, 0.010613863, -0.000013198825, -0.49382577)
    p = math.exp(a[0] / k + a[1] + a[2] * k + a[3] * k ** 2 + a[4] * math.log(k))
    return 0.622 * p / (101325.0 - p)


def surface_balance(h):
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg.get('sym', AIR)))
    hr = pp.h_r_js
    for i, s, bs in rooms(rd):
        th = c2.theta_r_is_n[i, 0]
        sa = sum(b['area'] for j, b in bs if b['is_solar_absorbed'] == 'True')
        wsum = sum(float(hr[j, 0]) * b['area'] for j, b in bs)
        mrt = sum(float(hr[j, 0]) * b['area'] * lg.theta_s[j, 0] for j, b in bs) / wsum
        tot = 0.0
        qr = 0.0
        for j, b in bs:
            h.check('radiative coefficient positive[%d]' % j, h.gt(hr[j, 0], 0.5))
            q, ts = lg.qiall_s[j, 0], lg.theta_s[j, 0]
            sol = 0.5 * h.sched['q_sol'][0][i] / sa if b['is_solar_absorbed'] == 'True' else 0.0
            panel = b['flr'] * (1.0 - s['beta']) * lg.l_rs[i, 0] / b['area']
            res = q - b['h_c'] * (th - ts) - float(hr[j, 0]) * (mrt - ts) - sol - panel
            h.check('surface heat balance[%d]' % j, h.eq(res * b['area'], 0.0, 1e-3))
            h.check('flux handed to the next step[%d]' % j, h.eq(q, c2.q_srf_js_n[j, 0], 1e-9))
            tot = tot + q * b['area']
            qr = qr + b['area'] * (q - b['h_c'] * (th - ts))
        h.check('radiant exchange sums to the solar and panel gains[%d]' % i,
                h.eq(qr - 0.5 * h.sched['q_sol'][0][i] - (1.0 - s['beta']) * lg.l_rs[i, 0], 0.0, 1e-2))
        # mean radiant temperature seen by the occupant
        m = sum(b['f_mrt_hum'] * lg.theta_s[j, 0] for j, b in bs)
        h.check('occupant radiant temperature[%d]' % i, h.eq(c2.theta_mrt_hum_is_n[i, 0], m, 1e-6))
        h.check('occupant radiant temperature logged[%d]' % i, h.eq(lg.theta_mrt_hum[i, 0], m, 1e-6))
        hc, hrr = lg.h_hum_c_is_n[i, 0], lg.h_hum_r_is_n[i, 0]
        h.check('operative temperature[%d]' % i,
                h.eq(lg.theta_ot[i, 0] * (hc + hrr), hc * th + hrr * m, 1e-5))
        h.check('furniture share of solar[%d]' % i, h.eq(pp.q_sol_frt_is_ns[i, 0], 0.5 * h.sched['q_sol'][0][i], 1e-9))
    h.observe('q', lg.qiall_s)
    h.observe('theta_ei', c2.theta_ei_js_n)


def conduction(h):
    """Surface temperature = convolution of the boundary's response with the heat flow and the rear temperature; the
    rear temperature is the outdoor share of sol-air temperature plus the share of the space beyond."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg.get('sym', AIR)))
    rf = h.mod('initializer.response_factor')
    for j, b in enumerate(rd['boundaries']):
        with h.expect_ok('response factors of boundary %d' % j):
            r = rf.ResponseFactorFactory.create(spec=b['spec']).get_response_factors()
        a1, t1, row = [np.asarray(x, dtype=float) for x in (r.rfa1, r.rft1, r.row)]

        def rear(tos, tei):
            return b['k_outside'] * tos[j] + (b['k_inside']['coef'] * tei[b['k_inside']['id'], 0]
                                              if b['k_inside'] is not None else 0.0)
        r0 = rear(h.sched['tos'][0], c.theta_ei_js_n)
        h.check('rear temperature[%d]' % j, h.eq(lg.theta_rear[j, 0], r0, 1e-6))
        conv = 0.0
        for m in range(12):
            ta = float(a1[m]) * c.q_srf_js_n[j, 0] + float(row[m]) * c.theta_dsh_srf_a_js_ms_n[j, m]
            tt = float(t1[m]) * r0 + float(row[m]) * c.theta_dsh_srf_t_js_ms_n[j, m]
            h.check('absorption term[%d,%d]' % (j, m), h.eq(c2.theta_dsh_srf_a_js_ms_n[j, m], ta, 1e-6))
            h.check('transmission term[%d,%d]' % (j, m), h.eq(c2.theta_dsh_srf_t_js_ms_n[j, m], tt, 1e-6))
            conv = conv + ta + tt
        r1 = rear(h.sched['tos'][0], c2.theta_ei_js_n)
        d = lg.theta_s[j, 0] - conv - float(r.rfa0) * c2.q_srf_js_n[j, 0]
        # recorded behaviour: the simultaneous rear temperature is formed with this side's coefficients
        known = None
        if b['k_inside'] is not None and b['k_inside']['id'] != j:
            k = b['k_inside']['id']
            bk = rd['boundaries'][k]
            i = bk['connected_space_id']
            s = rd['spaces'][i]
            bs = [(jj, bb) for jj, bb in enumerate(rd['boundaries']) if bb['connected_space_id'] == i]
            hr = [float(x) for x in pp.h_r_js[:, 0]]
            w = sum(hr[jj] * bb['area'] for jj, bb in bs)
            mrt = sum(hr[jj] * bb['area'] * lg.theta_s[jj, 0] for jj, bb in bs) / w
            sa = sum(bb['area'] for jj, bb in bs if bb['is_solar_absorbed'] == 'True')
            sol = 0.5 * h.sched['q_sol'][0][i] / sa if bk['is_solar_absorbed'] == 'True' else 0.0
            own = (b['h_c'] * c2.theta_r_is_n[i, 0] + hr[j] * mrt + sol
                   + bk['flr'] * (1.0 - s['beta']) * lg.l_rs[i, 0] / b['area']) / (b['h_c'] + hr[j])
            r1k = b['k_outside'] * h.sched['tos'][0][j] + b['k_inside']['coef'] * own
            known = {'K-REAR': h.eq(d, float(r.rft0) * r1k, 1e-5)}
        h.check('conduction law[%d]' % j, h.eq(d, float(r.rft0) * r1, 1e-5), known)
    h.observe('theta_s', lg.theta_s)
    h.observe('terms', c2.theta_dsh_srf_a_js_ms_n)


def pmv(theta_r, p_v, clo, theta_ot, h_hum, exp_coef):
    """ISO 7730 thermal sensation for a seated person (1 met), with given heat transfer coefficients."""
    m = 58.15
    icl = 0.155 * clo
    fcl = 1.0 + 1.29 * icl if icl <= 0.078 else 1.05 + 0.645 * icl
    dry = fcl * h_hum * (35.7 - 0.028 * m - theta_ot) / (1.0 + icl * fcl * h_hum)
    return exp_coef * (m - 3.05e-3 * (5733.0 - 6.99 * m - p_v) - 1.7e-5 * m * (5867.0 - p_v)
                       - 0.0014 * m * (34.0 - theta_r) - dry)


PMV_COEF = 0.303 * 2.718281828459045 ** (-0.036 * 58.15) + 0.028
H_HUM_C = 4.0
H_HUM_R = 4.0 * 3.96e-8 * 293.15 ** 3.0


def target(p_v, mode):
    """Operative temperature giving PMV -0.5 (heating, 1.1 clo) / +0.5 (cooling, 0.3 clo) at air = radiant temp."""
    clo, t = (1.1, -0.5) if mode == 'HEATING' else (0.3, 0.5)
    a = pmv(0.0, p_v, clo, 0.0, H_HUM_C + H_HUM_R, PMV_COEF)
    b = pmv(1.0, 0.0, clo, 1.0, H_HUM_C + H_HUM_R, PMV_COEF) - pmv(0.0, 0.0, clo, 0.0, H_HUM_C + H_HUM_R, PMV_COEF)
    return (t - a) / b


def _twin(h, sym):
    """One step, and the same step of a demand-free copy (second log slot)."""
    rd = cc.building(h.cfg.get('kind', 'one'), **h.cfg.get('b', {}))
    pp, ppg = cc.setup(h, rd, n=2, sym=sym, const=h.cfg.get('const'), twin=dict(ac=0.0))
    c = cc.state(h, pp, h.cfg['modes'], sym=sym, const=h.cfg.get('const'))
    c2, lg = cc.step(h, pp, c, n=0, n_steps=2)
    seq = h.mod('core.sequence')
    with h.expect_ok('a step completes'):
        seq.run_tick(n=1, delta_t=900.0, ss=pp, c_n=c, logger=lg, run_up=False)
    return rd, c, c2, lg


def _held(h, lg, modes, i, free, tgt, want, sg):
    """Recorded defect K-SIGN: with another room conditioned in the same step the load that holds this room at its
    target may have the wrong sign."""
    others = [h.Not(h.eq(x[j, 0], 0.0, 1e-12)) for x in (lg.l_cs, lg.l_rs) for j in range(len(modes)) if j != i]
    return h.And(h.lt((free - tgt) * sg, 0.0), h.eq(lg.theta_ot[i, 0], want, 1e-4), h.Or(*others))


def _goal(h, c, lg, i, m):
    x0 = c.x_r_is_n[i, 0]
    if isinstance(x0, E.Sym):
        raise E.EngineError('humidity must be concrete here')
    tgt = target(101325.0 * float(x0) / (float(x0) + 0.62198), m)
    free = lg.theta_ot[i, 1]
    return tgt, free, (tgt - free) * h.sched['ac'][0][i] + free


def loads(h):
    """Heating/cooling loads against the free-running temperature of the same step (second, demand-free copy)."""
    rd, c, c2, lg = _twin(h, tuple(h.cfg.get('sym', AIR)))
    modes = [mode_name(lg, i) for i in range(len(rd['spaces']))]
    for i, s, bs in rooms(rd):
        m = modes[i]
        lc, lr, ot = lg.l_cs[i, 0], lg.l_rs[i, 0], lg.theta_ot[i, 0]
        h.check('no load without demand[%d]' % i, h.And(h.eq(lg.l_cs[i, 1], 0.0, 1e-9), h.eq(lg.l_rs[i, 1], 0.0, 1e-9)))
        if m in ('STOP_OPEN', 'STOP_CLOSE'):
            h.check('no load when stopped[%d]' % i, h.And(h.eq(lc, 0.0, 1e-6), h.eq(lr, 0.0, 1e-6)))
            continue
        sg = 1.0 if m == 'HEATING' else -1.0
        tgt, free, want = _goal(h, c, lg, i, m)
        comparable = all(x in ('HEATING', 'COOLING', 'STOP_CLOSE') for x in modes)
        k_sign = None
        if len(modes) > 1 and comparable:
            k_sign = {'K-SIGN': _held(h, lg, modes, i, free, tgt, want, sg)}
        h.check('load has the sign of the mode[%d]' % i, h.And(h.le(0.0, lc * sg, 1e-4), h.le(0.0, lr * sg, 1e-4)), k_sign)
        if comparable:
            h.check('operative temperature brought to the target[%d]' % i,
                    h.Or(h.le(-1e-6, (free - tgt) * sg), h.eq(ot, want, 1e-4)))
            h.check('no load when the target is met without it[%d]' % i,
                    h.Or(h.le((free - tgt) * sg, 1e-6), h.And(h.eq(lc, 0.0, 1e-6), h.eq(lr, 0.0, 1e-6))))
            if h.cfg.get('cover', True):
                h.cover('conditioning needed %s' % m, h.lt((free - tgt) * sg, -0.1))
            if len(modes) == 1:
                h.check('temperature free-running when the target is met[%d]' % i,
                        h.Or(h.le((free - tgt) * sg, 1e-6), h.eq(ot, free, 1e-6)))
    h.observe('ot', lg.theta_ot)
    h.observe('l_cs', lg.l_cs)
    h.observe('l_rs', lg.l_rs)


def radiant(h):
    """Split of the load between radiant and convective equipment."""
    rd, c, c2, lg = _twin(h, tuple(h.cfg.get('sym', AIR)))
    modes = [mode_name(lg, i) for i in range(len(rd['spaces']))]
    for i, s, bs in rooms(rd):
        m = modes[i]
        lc, lr = lg.l_cs[i, 0], lg.l_rs[i, 0]
        if m in ('STOP_OPEN', 'STOP_CLOSE'):
            h.check('no radiant load when stopped[%d]' % i, h.eq(lr, 0.0, 1e-6))
            continue
        sg = 1.0 if m == 'HEATING' else -1.0
        e = s['equipment']['heating' if m == 'HEATING' else 'cooling']['radiative']
        if not e['installed']:
            h.check('no radiant load without a radiant system[%d]' % i, h.eq(lr, 0.0, 1e-6))
            continue
        tgt, free, want = _goal(h, c, lg, i, m)
        k_rad = None
        if len(modes) > 1:
            k_rad = {'K-SIGN': h.And(_held(h, lg, modes, i, free, tgt, want, sg), h.eq(lr, 0.0, 1e-6), h.le(lc * sg, 0.0))}
        cap = e['max_capacity']
        h.check('radiant load within capacity[%d]' % i, h.le(lr * sg, cap, 1e-6))
        h.check('convective load only when the radiant capacity is used up[%d]' % i,
                h.Or(h.eq(lr * sg, cap, 1e-6), h.eq(lc, 0.0, 1e-6)), k_rad)
        if h.cfg.get('cover', True):
            h.cover('radiant capacity reached %s' % m, h.And(h.eq(lr * sg, cap, 1e-6), h.gt(lc * sg, 1.0)))
            h.cover('radiant capacity not reached %s' % m, h.And(h.lt(lr * sg, cap - 1.0), h.gt(lr * sg, 1.0)))
    h.observe('l_cs', lg.l_cs)
    h.observe('l_rs', lg.l_rs)


def inter_room(h):
    """Air supplied to a room from other rooms carries their heat and moisture in and displaces room air."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg.get('sym', AIR)))
    part = h.cfg['part']
    for i, s, bs in rooms(rd):
        f = s['furniture']
        v = v_out(h, s, i, lg)
        nx = [(k, w) for k, w in enumerate(s['ventilation']['next_spaces']) if w != 0.0]
        if part == 'heat':
            th, th0 = c2.theta_r_is_n[i, 0], c.theta_r_is_n[i, 0]
            conv = sum(b['area'] * b['h_c'] * (lg.theta_s[j, 0] - th) for j, b in bs)
            base = s['volume'] * CP * RHO / 900.0 * (th - th0) - conv - CP * RHO * v * (h.sched['theta_o'][0] - th) \
                - h.sched['q_gen'][0][i] - lg.q_hum[i, 0] - f['heat_cond'] * (c2.theta_frt_is_n[i, 0] - th) - lg.l_cs[i, 0] \
                - s['beta'] * lg.l_rs[i, 0]
            up = [(w, c2.theta_r_is_n[k, 0] if k != i else th) for k, w in nx]
            right = sum(CP * RHO * w * (t - th) for w, t in up)
            known = {'K-NEXT-T': h.eq(base, sum(-(CP * RHO * w) * t for w, t in up), 1e-3)} if nx else None
            h.check('heat carried by air from other rooms[%d]' % i, h.eq(base, right, 1e-3), known)
        else:
            x, x0 = c2.x_r_is_n[i, 0], c.x_r_is_n[i, 0]
            base = RHO * s['volume'] / 900.0 * (x - x0) - RHO * v * (h.sched['x_o'][0] - x) - h.sched['x_gen'][0][i] \
                - lg.x_hum[i, 0] - f['moisture_cond'] * (c2.x_frt_is_n[i, 0] - x)
            base = base * LW - lg.l_cl[i, 0]
            up = [(w, c2.x_r_is_n[k, 0]) for k, w in nx]
            right = sum(RHO * w * LW * (t - x) for w, t in up)
            known = {'K-NEXT-X': h.eq(base, sum((RHO * w * LW) * t for w, t in up), 1e-2)} if nx else None
            h.check('moisture carried by air from other rooms[%d]' % i, h.eq(base, right, 1e-2), known)
    h.observe('theta_r', c2.theta_r_is_n)
    h.observe('x_r', c2.x_r_is_n)


CLO = {'HEATING': 1.1, 'COOLING': 0.3, 'STOP_OPEN': 0.7, 'STOP_CLOSE': 0.7}
PMVT = {'HEATING': -0.5, 'COOLING': 0.5, 'STOP_OPEN': 0.0, 'STOP_CLOSE': 0.0}


def vapour(x):
    return 101325.0 * x / (x + 0.62198)


def remark(lg, i, n=0):
    import json
    v = lg.space_remarks[i, n]
    return json.loads(v) if isinstance(v, str) else v


def operation_mode(h):
    """Operation mode of the step from demand, the previous mode and the sensation in three clothing levels."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg['sym']))
    H = H_HUM_C + H_HUM_R
    e = 1e-6
    for i, s, bs in rooms(rd):
        o, was = mode_name(lg, i), h.cfg['modes'][i]
        ac = h.sched['ac'][0][i]
        pv = vapour(c.x_r_is_n[i, 0])
        tr, mrt = c.theta_r_is_n[i, 0], c.theta_mrt_hum_is_n[i, 0]
        ot = (mrt * H_HUM_R + tr * H_HUM_C) * (1.0 / H)
        hv, md, lt = [pmv(tr, pv, k, ot, H, PMV_COEF) for k in (1.1, 0.7, 0.3)]
        on, off = h.gt(ac, 0.0), h.le(ac, 0.0)

        def ge(a, t):
            return h.le(t, a, e)

        def le(a, t):
            return h.le(a, t, e)
        if was == 'HEATING':
            w = {'HEATING': h.And(on, le(hv, 0.7)), 'COOLING': h.And(on, ge(hv, 0.7), ge(lt, 0.7)),
                 'STOP_CLOSE': h.Or(off, h.And(ge(hv, 0.7), le(lt, 0.7))), 'STOP_OPEN': False}
        elif was == 'COOLING':
            w = {'COOLING': h.And(on, ge(lt, -0.7)), 'HEATING': h.And(on, le(lt, -0.7), le(hv, -0.7)),
                 'STOP_CLOSE': h.Or(off, h.And(le(lt, -0.7), ge(hv, -0.7))), 'STOP_OPEN': False}
        else:
            rest = h.And(on, le(lt, 0.7), ge(hv, -0.7))
            w = {'COOLING': h.And(on, ge(lt, 0.7)), 'HEATING': h.And(on, le(hv, -0.7), le(lt, 0.7)),
                 'STOP_OPEN': h.And(rest, ge(md, 0.0)), 'STOP_CLOSE': h.Or(off, h.And(rest, le(md, 0.0)))}
        h.check('operation mode[%d]' % i, w[o])
        m2 = c2.operation_mode_is_n[i, 0]
        h.check('mode handed to the next step[%d]' % i, (getattr(m2, 'name', None) or NAMES[int(m2)]) == o)
        if h.cfg.get('cover', True) and len(rd['spaces']) == 1:
            for nm in ('HEATING', 'COOLING', 'STOP_CLOSE') + (('STOP_OPEN',) if was.startswith('STOP') else ()):
                h.cover('turns to %s' % nm, o == nm)
    h.observe('mode', [mode_name(lg, i) for i in range(len(rd['spaces']))])


def target_pmv(h):
    """A conditioned room with full demand ends the step at the operative temperature whose sensation is the target."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg['sym']))
    H = H_HUM_C + H_HUM_R
    for i, s, bs in rooms(rd):
        o = mode_name(lg, i)
        r = remark(lg, i)
        h.check('clothing logged[%d]' % i, h.eq(float(r['clo']), CLO[o], 1e-9))
        h.check('target sensation logged[%d]' % i, h.eq(float(r['pmv_target']), PMVT[o], 1e-9))
        rad = {'HEATING': s['equipment']['heating']['radiative']['installed'],
               'COOLING': s['equipment']['cooling']['radiative']['installed']}.get(o)
        v = 0.1 if o == 'STOP_OPEN' else 0.0 if o == 'STOP_CLOSE' or rad else 0.2
        h.check('air speed logged[%d]' % i, h.eq(float(r['v_hum m/s']), v, 1e-9))
        h.check('heat transfer coefficients[%d]' % i, h.And(h.eq(lg.h_hum_c_is_n[i, 0], H_HUM_C, 1e-9),
                                                           h.eq(lg.h_hum_r_is_n[i, 0], H_HUM_R, 1e-9)))
        if o in ('HEATING', 'COOLING'):
            ot = lg.theta_ot[i, 0]
            p = pmv(ot, vapour(c.x_r_is_n[i, 0]), CLO[o], ot, H, PMV_COEF)
            load = lg.l_cs[i, 0] + lg.l_rs[i, 0]
            if E.has_sym(load) or float(load) != 0.0:
                h.check('sensation at the target[%d]' % i, h.Or(h.eq(load, 0.0, 1e-9), h.eq(p, PMVT[o], 1e-6)))
                if len(rd['spaces']) == 1 and h.cfg.get('cover', True):
                    h.cover('conditioned %s' % o, h.Not(h.eq(load, 0.0, 1.0)))
    h.observe('ot', lg.theta_ot)
    h.observe('l_cs', lg.l_cs)


def occupants(h):
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg['sym']))
    for i, s, bs in rooms(rd):
        n, t = h.sched['n_hum'][0][i], c.theta_r_is_n[i, 0]
        q, x = lg.q_hum[i, 0], lg.x_hum[i, 0]
        if E.has_sym(n) and E.has_sym(t):
            raise E.EngineError('one of the two must be concrete')
        one = 159.0 - 4.0 * t
        lim = h.And(h.Or(h.le(119.0, one, 1e-9), h.eq(q, n * one, 1e-6)), h.Or(h.le(one, 119.0, 1e-9), h.eq(q, n * 119.0, 1e-6)))
        h.check('sensible occupant heat[%d]' % i, lim)
        h.check('total occupant heat[%d]' % i, h.eq(q + x * LW, n * 119.0, 1e-6))
    h.observe('q_hum', lg.q_hum)
    h.observe('x_hum', lg.x_hum)


def infiltration(h):
    """Air change rate n: with r = C a sqrt(|dT|), n = max(r - b, 0); compared through squares."""
    rd, pp, c, c2, lg = _go(h, tuple(h.cfg['sym']))
    b = rd['building']
    C = b['c_value']
    a = {1: 0.022, 2: 0.020}[b['story']]
    bb = {'balanced': (0.0, 0.0), 'positive': (0.26, 0.14), 'negative': (0.28, 0.13)}[b['inside_pressure']][b['story'] - 1]
    vt = sum(s['volume'] for s in rd['spaces'])
    d = sum(s['volume'] * c.theta_r_is_n[i, 0] for i, s in enumerate(rd['spaces'])) / vt - h.sched['theta_o'][0]
    n0 = lg.v_reak_is_ns[0, 0] * (3600.0 / rd['spaces'][0]['volume'])
    k = (a * C) ** 2
    for i, s in enumerate(rd['spaces']):
        n = lg.v_reak_is_ns[i, 0] * (3600.0 / s['volume'])
        h.check('same air change rate in every room[%d]' % i, h.eq(n, n0, 1e-7))
    h.check('infiltration is not negative', h.le(0.0, n0, 1e-12))
    sq = (n0 + bb) * (n0 + bb)
    t = 1e-6
    h.check('infiltration rate', h.Or(h.And(h.le(0.0, d, 1e-9), h.Or(h.eq(sq, d * k, t), h.And(h.eq(n0, 0.0, 1e-9), h.le(d * k, bb * bb, t)))),
                                      h.And(h.le(d, 0.0, 1e-9), h.Or(h.eq(sq, d * -k, t), h.And(h.eq(n0, 0.0, 1e-9), h.le(d * -k, bb * bb, t))))))
    if h.cfg.get('cover', True):
        h.cover('warm inside', h.And(h.gt(d, 5.0), h.gt(n0, 0.001)))
        h.cover('warm outside', h.And(h.lt(d, -5.0), h.gt(n0, 0.001)))
        if bb > 0:
            h.cover('no infiltration', h.eq(n0, 0.0, 1e-12))
    h.observe('v', lg.v_reak_is_ns)


def order(h):
    """The same house with rooms and boundaries listed in another order gives the same result for every room/surface."""
    sym, const = tuple(h.cfg['sym']), h.cfg.get('const')
    rd = cc.building(h.cfg['kind'], **h.cfg.get('b', {}))
    nr, nb = len(rd['spaces']), len(rd['boundaries'])
    res = []
    for perm in (None, h.cfg['perm']):
        rd1 = rd if perm is None else cc.permuted(rd, perm)
        pp, _ = cc.setup(h, rd1, sym=sym, const=const, perm=perm)
        c = cc.state(h, pp, h.cfg['modes'], sym=sym, const=const, perm=perm)
        res.append(cc.step(h, pp, c))
    rp, bp = h.cfg['perm']
    (a, la), (b, lb) = res
    for k, o in enumerate(rp):
        for nm in ('theta_r', 'theta_ot', 'theta_mrt_hum', 'theta_frt', 'q_hum'):
            h.check('%s[%d]' % (nm, o), h.eq(getattr(la, nm)[o, 0], getattr(lb, nm)[k, 0], 1e-6))
        for nm in ('x_r', 'x_frt'):
            h.check('%s[%d]' % (nm, o), h.eq(getattr(la, nm)[o, 0], getattr(lb, nm)[k, 0], 1e-9))
        for nm in ('l_cs', 'l_rs', 'l_cl'):
            h.check('%s[%d]' % (nm, o), h.eq(getattr(la, nm)[o, 0], getattr(lb, nm)[k, 0], 1e-3))
        h.check('mode[%d]' % o, mode_name(la, o) == mode_name(lb, k))
    for k, o in enumerate(bp):
        for nm in ('theta_s', 'theta_rear', 'theta_ei', 'qiall_s'):
            h.check('%s[%d]' % (nm, o), h.eq(getattr(la, nm)[o, 0], getattr(lb, nm)[k, 0], 1e-5))
    h.observe('theta_r', la.theta_r)
    h.observe('theta_r2', lb.theta_r)


def equilibrium(h):
    """A building at one temperature and humidity with its surroundings, without gains or conditioning, stays there."""
    rd = cc.building(h.cfg['kind'], **h.cfg.get('b', {}))
    what, k = h.cfg['what'], h.cfg.get('steps', 2)
    T = h.inp('T', -20.0, 40.0) if 'T' in what else h.cfg.get('T', 12.0)
    X = h.inp('X', 0.0005, 0.030) if 'X' in what else h.cfg.get('X', 0.006)
    const = dict(theta_o=T, tos=T, theta_r=T, mrt=T, theta_frt=T, theta_ei=T, term=0.0, q_srf=0.0, q_gen=0.0, q_sol=0.0, n_hum=0.0,
                 ac=0.0, x_gen=0.0, lv=h.cfg.get('lv', 0.0), x_o=X, x_r=X, x_frt=X)
    pp, _ = cc.setup(h, rd, n=k, const=const)
    c = cc.state(h, pp, h.cfg['modes'], const=const)
    rf = h.mod('initializer.response_factor')
    for j, b in enumerate(rd['boundaries']):
        with h.expect_ok('response factors of boundary %d' % j):
            r = rf.ResponseFactorFactory.create(spec=b['spec']).get_response_factors()
        for m in range(12):
            if float(r.row[m]) != 0.0:
                c.theta_dsh_srf_t_js_ms_n[j, m] = T * (float(r.rft1[m]) / (1.0 - float(r.row[m])))
    lg = h.mod('core.log').Logger(n_spaces=pp.n_spaces, n_boundaries=pp.n_bdries, n_step_main=k)
    lg.pre_logging(pp)
    seq = h.mod('core.sequence')
    for n in range(k):
        with h.expect_ok('a step completes'):
            c = seq.run_tick(n=n, delta_t=900.0, ss=pp, c_n=c, logger=lg, run_up=False)
        for i, s, bs in rooms(rd):
            for nm in ('theta_r', 'theta_ot', 'theta_mrt_hum', 'theta_frt'):
                h.check('%s stays[%d,%d]' % (nm, i, n), h.eq(getattr(lg, nm)[i, n], T, 1e-3))
            for nm in ('x_r', 'x_frt'):
                h.check('%s stays[%d,%d]' % (nm, i, n), h.eq(getattr(lg, nm)[i, n], X, 1e-9))
            for nm in ('l_cs', 'l_rs', 'l_cl'):
                h.check('%s stays zero[%d,%d]' % (nm, i, n), h.eq(getattr(lg, nm)[i, n], 0.0, 1e-6))
            for j, b in bs:
                h.check('surface temperature stays[%d,%d]' % (j, n), h.eq(lg.theta_s[j, n], T, 1e-3))
                h.check('no heat flow into the surface[%d,%d]' % (j, n), h.eq(lg.qiall_s[j, n], 0.0, 1e-2))
    h.observe('theta_r', lg.theta_r)
    h.observe('x_r', lg.x_r)
