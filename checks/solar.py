"""Harnesses on the solar inputs of outside elements: sol-air temperature, transmitted solar radiation, shading by eaves."""
import math

import numpy as np

AZ = {'s': 0.0, 'sw': 45.0, 'w': 90.0, 'nw': 135.0, 'n': 180.0, 'ne': -135.0, 'e': -90.0, 'se': -45.0}
R = math.pi / 180.0


def _sc(x):
    from symx import engine as E
    if isinstance(x, E.Sym):
        return E.sfun('sin', x), E.sfun('cos', x)
    return math.sin(x), math.cos(x)


def _abs(x):
    return abs(x)


def element(bt, **o):
    """A complete element description of the house file; o overrides."""
    b = dict(id=0, name='b', sub_name='', connected_room_id=0, boundary_type=bt, area=5.0, is_sun_striked_outside=True, temp_dif_coef=1.0,
             next_room_type='main_occupant_room', rear_surface_boundary_id=0, is_solar_absorbed_inside=False, is_floor=False, direction='s',
             inside_heat_transfer_resistance=0.11, h_c=2.5, solar_shading_part={'existence': False},
             outside_solar_absorption=0.8, outside_emissivity=0.9, outside_heat_transfer_resistance=0.04, u_value=3.0, eta_value=0.6,
             incident_angle_characteristics='single', glass_area_ratio=0.8,
             layers=[dict(name='a', thermal_capacity=10.0, thermal_resistance=0.1)])
    if bt in ('internal', 'ground'):
        for k in ('is_sun_striked_outside', 'direction', 'temp_dif_coef'):
            del b[k]
    b.update(o)
    return b


def sky(h, n=2):
    """n steps of weather: symbolic radiation and temperature; the sun anywhere in the first step, fixed afterwards."""
    kind = h.cfg.get('sun', 'up')
    th = [h.inp('theta_o%d' % k, -25.0, 40.0) for k in range(n)]
    dn = [h.inp('i_dn%d' % k, 0.0, 1400.0) for k in range(n)]
    sk = [h.inp('i_sky%d' % k, 0.0, 600.0) for k in range(n)]
    rn = [h.inp('r_n%d' % k, 0.0, 200.0) for k in range(n)]
    if kind == 'up':
        hs = [h.inp('h_sun', 0.001, 1.57)]
    else:
        hs = [h.inp('h_sun', -1.5, -0.001)]
        dn[0] = 0.0
    az = [h.inp('a_sun', -3.1415, 3.1415)]
    for k in range(1, n):
        hs.append([0.0, 0.7, 0.2][k])
        az.append([0.0, 0.5, -1.2][k])
    return th, dn, sk, rn, hs, az


def cos_incidence(direction, hs, az):
    """Cosine of the angle between the sun and the outward normal."""
    sh, ch = _sc(hs)
    if direction == 'top':
        return sh
    if direction == 'bottom':
        return -1.0 * sh
    sa, ca = _sc(az)
    w = AZ[direction] * R
    return ch * (ca * math.cos(w) + sa * math.sin(w))


def sky_factor(direction):
    return {'top': 1.0, 'bottom': 0.0}.get(direction, 0.5)


def _settle(h, direction, hs, az):
    """Leave out grazing incidence (|cos| < 1e-6) in the symbolic step."""
    for a, b in zip(hs, az):
        c = cos_incidence(direction, a, b)
        h.assume(h.Or(h.ge(c, 1e-6), h.le(c, -1e-6)))


def _pos(h, c):
    return c if h.pick(h.gt(c, 0.0)) else 0.0


def _run(h, b, w):
    th, dn, sk, rn, hs, az = w
    m = h.mod('initializer.boundary_simple')
    with h.expect_ok('element can be made'):
        o = m.get_boundary_simple(theta_o_ns=h.arr(th), i_dn_ns=h.arr(dn), i_sky_ns=h.arr(sk), r_n_ns=h.arr(rn), a_sun_ns=h.arr(az),
                                  h_sun_ns=h.arr(hs), b=b)
    return o


def incident(h, direction, w, k):
    """(direct, sky, ground reflected) radiation on the surface."""
    th, dn, sk, rn, hs, az = w
    c = _pos(h, cos_incidence(direction, hs[k], az[k]))
    f = sky_factor(direction)
    sh = _sc(hs[k])[0]
    sh = sh if h.pick(h.gt(hs[k], 0.0)) else 0.0
    return dn[k] * c, f * sk[k], (1.0 - f) * 0.1 * (dn[k] * sh + sk[k]), c


def sol_air(h):
    bt, d = h.cfg['bt'], h.cfg['direction']
    w = sky(h)
    th, dn, sk, rn, hs, az = w
    a_s, eps, r = h.inp('a_s', 0.0, 1.0), h.inp('eps', 0.0, 1.0), h.inp('r_o', 0.0, 0.5)
    sun = h.cfg.get('strike', True)
    b = element(bt, direction=d, outside_solar_absorption=a_s, outside_emissivity=eps, outside_heat_transfer_resistance=r,
                is_sun_striked_outside=sun)
    if bt == 'external_transparent_part':
        del b['outside_solar_absorption']
    _settle(h, d, hs, az)
    o = _run(h, b, w)
    for k in range(len(th)):
        if not sun:
            h.check('sheltered element sees outdoor air[%d]' % k, h.eq(o.theta_o_sol[k], th[k], 1e-9))
            continue
        i_d, i_s, i_r, c = incident(h, d, w, k)
        gain = a_s * (i_d + i_s + i_r) if bt != 'external_transparent_part' else 0.0
        h.check('sol-air temperature[%d]' % k, h.eq(o.theta_o_sol[k], th[k] + r * (gain - eps * sky_factor(d) * rn[k]), 1e-6))
        h.observe('theta[%d]' % k, o.theta_o_sol[k])
    h.observe('h_td', o.h_td)


def ground(h):
    w = sky(h, 3)
    th = w[0]
    o = _run(h, element('ground'), w)
    n = len(o.theta_o_sol)
    h.check('ground sees the mean outdoor temperature at every step', h.And(*[h.eq(o.theta_o_sol[k], (th[0] + th[1] + th[2]) / 3.0, 1e-6)
                                                                            for k in (0, 1, n // 2, n - 1)]))
    h.check('no solar radiation through the ground', all(_zero(x) for x in o.q_trs_sol))


def _zero(x):
    return not hasattr(x, 'p') and float(x) == 0.0


def tau(c, kind):
    """Transmittance relative to normal incidence."""
    t = c * (2.552 + c * (1.364 + c * (-11.388 + c * (13.617 - c * 5.146))))
    if kind == 'single':
        return t
    rho = 1.0 + c * (-5.189 + c * (12.392 + c * (-16.593 + c * (11.851 - c * 3.461))))
    return t * t / (1.0 - rho * rho)


def eaves(h, direction, hs, az, c, depth, d_h, d_e):
    """Fraction of the window's height in the shadow of the eaves for direct radiation."""
    if not h.pick(h.gt(hs, 0.0)):
        return 0.0
    sh, ch = _sc(hs)
    # length of the shadow below the eaves = depth * tan(profile angle)
    y = depth * (sh / c) - d_e
    # the edge of the shadow exactly on an edge of the window: both readings are the same, left out
    h.assume(h.Or(h.le(y, -1e-6), h.ge(y, 1e-6)))
    h.assume(h.Or(h.le(y, d_h - 1e-6), h.ge(y, d_h + 1e-6)))
    if h.pick(h.le(y, 0.0)):
        return 0.0
    if h.pick(h.ge(y, d_h)):
        return 1.0
    return y / d_h


def _sqrt(x):
    from symx import engine as E
    return E.ssqrt(x) if isinstance(x, E.Sym) else math.sqrt(x)


def eaves_sky(depth, d_h, d_e):
    """Crossed strings: fraction of the sky radiation on the window kept off by the eaves."""
    return ((d_e + d_h) + _sqrt(d_e * d_e + depth * depth) - d_e - _sqrt((d_e + d_h) * (d_e + d_h) + depth * depth)) / (2.0 * d_h)


def transmitted(h):
    d, kind = h.cfg['direction'], h.cfg.get('glass', 'single')
    w = sky(h)
    th, dn, sk, rn, hs, az = w
    area = h.inp('area', 0.01, 100.0) if h.cfg.get('sym_area', True) else 5.0
    eta = h.inp('eta', 0.0, 1.0)
    b = element('external_transparent_part', direction=d, area=area, eta_value=eta, incident_angle_characteristics=kind)
    del b['outside_solar_absorption']
    ev = h.cfg.get('eaves')
    if ev:
        dep, d_h, d_e = (h.inp('eaves_%s' % nm, *v) if isinstance(v, tuple) else v for nm, v in zip(('depth', 'd_h', 'd_e'), ev))
        b['solar_shading_part'] = dict(existence=True, input_method='simple', depth=dep, d_h=d_h, d_e=d_e)
    _settle(h, d, hs, az)
    o = _run(h, b, w)
    cd = 0.900 if kind == 'single' else 0.832
    for k in range(len(th)):
        i_d, i_s, i_r, c = incident(h, d, w, k)
        fd, fs = 0.0, 0.0
        if ev:
            if not _const0(c):
                fd = eaves(h, d, hs[k], az[k], c, dep, d_h, d_e)
            fs = eaves_sky(dep, d_h, d_e)
        t = tau(c, kind) if not _const0(c) else 0.0
        diffuse = cd * ((1.0 - fs) * i_s + i_r)
        q = o.q_trs_sol[k]
        full = area * eta * ((1.0 - fd) * t * i_d + diffuse)
        known = None if ev else {'K-NOSHADE': h.eq(q, area * eta * diffuse, 1e-6)}
        h.check('transmitted solar radiation[%d]' % k, h.eq(q, full, 1e-6), known)
        if not ev:
            h.check('not negative[%d]' % k, h.ge(q, 0.0, 1e-6))
        h.observe('q[%d]' % k, q)


def _const0(c):
    return not hasattr(c, 'p') and c == 0.0


def opaque_none(h):
    """Nothing is transmitted by opaque, sheltered, internal or ground elements."""
    bt, sun = h.cfg['bt'], h.cfg.get('strike', True)
    w = sky(h)
    b = element(bt, **({'is_sun_striked_outside': sun} if bt.startswith('external') else {}))
    _settle(h, 's', w[4], w[5])
    o = _run(h, b, w)
    h.check('nothing transmitted', all(_zero(x) for x in o.q_trs_sol))
    h.observe('h_i', o.h_i)


def glass(h):
    """Relative transmittance lies between 0 and 1 at every angle of incidence."""
    m = h.mod('initializer.oblique_incidence_charac')
    th = h.inp('theta', 0.0, 1.55)
    kind = h.cfg['glass']
    with h.expect_ok('transmittance'):
        t = m.get_tau_d_j_ns(theta_aoi_j_ns=h.arr([th]), glazing_type_j=kind)[0]
    h.check('at most normal incidence (1 %), not negative', h.between(0.0, t, 1.01, 1e-6))
    h.check('formula', h.eq(t, tau(_sc(th)[1], kind), 1e-6))
    h.observe('t', t)
