"""Harnesses on the preparation of the engine's input from the house description (initializer)."""
import contextlib
import math

import numpy as np
import pandas as pd

from symx import engine as E
from .solar import element
from .weather import package_file

TYPES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
NAMES = TYPES


def equipment(kind, q=None):
    d = {'equipment_type': kind}
    q = q or {}
    if kind == 'convective':
        d['convective'] = dict(dict(q_min=600.0, q_max=5000.0, v_min=5.0, v_max=12.0), **q)
    elif kind == 'radiative':
        d['radiative'] = dict(dict(max_capacity=100.0, area=12.0), **q)
    return d


def room(i, t=None, heat='convective', cool='convective', **o):
    d = dict(id=i, name=NAMES[i % 4] if t is None else NAMES[TYPES.index(t)], room_type=t or TYPES[i % 4], volume=70.0 - 11.0 * i,
             vent=60.0 + 7.0 * i, next_vent=[], natural_vent_time=5.0, floor_area=30.0, heating_equipment=equipment(heat),
             cooling_equipment=equipment(cool))
    d.update(o)
    return d


WALLS = [dict(name='board', thermal_capacity=10.0, thermal_resistance=0.04), dict(name='wool', thermal_capacity=2.0, thermal_resistance=1.9)]


def shell(i, r, **o):
    """floor, wall and window of room r, numbered from i."""
    return [element('external_general_part', id=i, name='floor%d' % r, connected_room_id=r, area=20.0, is_floor=True,
                    is_solar_absorbed_inside=True, direction='bottom', h_c=0.7),
            element('external_general_part', id=i + 1, name='wall%d' % r, connected_room_id=r, area=33.0),
            element('external_transparent_part', id=i + 2, name='window%d' % r, connected_room_id=r, area=6.0)]


def weather(h, n=3, full=False, **o):
    d = {'temperature': [5.0 + k for k in range(n)], 'absolute humidity': [0.005] * n,
         'normal direct solar radiation': [100.0 * k for k in range(n)], 'horizontal sky solar radiation': [60.0 + 20.0 * k for k in range(n)],
         'outward radiation': [40.0] * n, 'sun altitude': [0.1 + 0.25 * k for k in range(n)], 'sun azimuth': [-0.6 + 0.4 * k for k in range(n)]}
    d.update(o)
    if full:
        rest = dict(zip(d, (8.0, 0.005, 0.0, 0.0, 40.0, -0.5, 2.0)))
        d = {k: list(v) + [rest[k]] * (35040 - n) for k, v in d.items()}
    h.file('weather.csv', pd.DataFrame(d))
    return d


def doc(rooms, bdries, **b):
    return dict(building=dict(dict(story=2, c_value=2.0, inside_pressure='negative'), **b), rooms=rooms, boundaries=bdries)


def make(h, d, full=False):
    """Prepare the engine's input with the real initializer and read it back."""
    m = h.mod('initializer.initializer')
    (m.make_house if full else m.make_house_for_test)(d, h.tmp, h.tmp)
    return h.load('mid_data_house.json')


# ------------------------------------------------------------------------------------------------------ rooms

def rooms_spec(h):
    n = h.cfg.get('n', 3)
    sy = h.cfg.get('sym', 'flows')
    rs, ex = [], []
    for i in range(n):
        he, ce = h.cfg['heat'][i], h.cfg['cool'][i]
        v = h.inp('volume%d' % i, 0.5, 2000.0)
        vent = h.inp('vent%d' % i, 0.0, 2000.0)
        nat = h.inp('natural%d' % i, 0.0, 100.0)
        nx = [(j, h.inp('next%d_%d_%d' % (i, j, k), 0.0, 1000.0)) for k, j in enumerate(h.cfg.get('next', {}).get(str(i), []))]
        q = {k: h.inp('%s%d' % (k, i), lo, hi) for k, lo, hi in (('q_min', 0, 2000), ('q_max', 0, 20000), ('v_min', 0, 8), ('v_max', 0, 60))}
        r = {'max_capacity': h.inp('cap%d' % i, 0.0, 500.0), 'area': h.inp('panel%d' % i, 0.0, 200.0)}
        rc = {'max_capacity': h.inp('ccap%d' % i, 10.0, 300.0), 'area': h.inp('cpanel%d' % i, 0.0, 200.0)}
        rm = room(i, volume=v, vent=vent, natural_vent_time=nat, next_vent=[dict(upstream_room_id=a, volume=b) for a, b in nx])
        rm['heating_equipment'] = equipment(he, r if he == 'radiative' else None)
        rm['cooling_equipment'] = equipment(ce, q if ce == 'convective' else rc if ce == 'radiative' else None)
        rs.append(rm)
        ex.append((v, vent, nat, nx, q, r, rc, he, ce))
    bs = [b for i in range(n) for b in shell(3 * i, i)]
    weather(h)
    c = h.inp('c_value', 0.0, 50.0)
    story, pr = h.cfg.get('story', 2), h.cfg.get('pressure', 'negative')
    with h.expect_ok('a complete description is accepted'):
        o = make(h, doc(rs, bs, story=story, c_value=c, inside_pressure=pr))
    h.check('building', h.And(o['building']['story'] == story, o['building']['inside_pressure'] == pr,
                              o['building']['infiltration_method'] == 'balance_residential', h.eq(o['building']['c_value'], c, 1e-9)))
    h.check('one space per room', len(o['spaces']) == n)
    for i, (s, (v, vent, nat, nx, q, r, rc, he, ce)) in enumerate(zip(o['spaces'], ex)):
        h.check('identity of room %d' % i, s['id'] == i and s['name'] == rs[i]['name'])
        h.check('volume of room %d' % i, h.eq(s['volume'], v, 1e-9))
        vt = s['ventilation']
        h.check('mechanical ventilation of room %d' % i, h.eq(vt['mechanical'], vent / 3600.0, 1e-9))
        h.check('natural ventilation of room %d' % i, h.eq(vt['natural'], v * nat / 3600.0, 1e-9))
        h.check('size of the flow row %d' % i, len(vt['next_spaces']) == n)
        for j in range(n):
            f = 0.0
            for a, b in nx:
                f = f + (b if a == j else 0.0)
            h.check('flow from room %d into room %d' % (j, i), h.eq(vt['next_spaces'][j], f / 3600.0, 1e-9))
        fu = s['furniture']
        h.check('furniture heat capacity %d' % i, h.eq(fu['heat_capacity'], 12600.0 * v, 1e-4))
        h.check('furniture heat conductance %d' % i, h.eq(fu['heat_cond'], 0.00022 * 12600.0 * v, 1e-6))
        h.check('furniture moisture capacity %d' % i, h.eq(fu['moisture_capacity'], 16.8 * v, 1e-6))
        h.check('furniture moisture conductance %d' % i, h.eq(fu['moisture_cond'], 0.0018 * 16.8 * v, 1e-8))
        h.check('no convective share of panels %d' % i, h.eq(s['beta'], 0.0, 1e-12))
        eh, ec = s['equipment']['heating'], s['equipment']['cooling']
        h.check('heating equipment kind %d' % i, (eh['convective']['installed'], eh['radiative']['installed']) == (he == 'convective', he == 'radiative'))
        h.check('cooling equipment kind %d' % i, (ec['convective']['installed'], ec['radiative']['installed']) == (ce == 'convective', ce == 'radiative'))
        if he == 'radiative':
            h.check('radiant heating capacity %d' % i, h.eq(eh['radiative']['max_capacity'], r['max_capacity'] * r['area'], 1e-6))
        if ce == 'radiative':
            h.check('radiant cooling capacity %d' % i, h.eq(ec['radiative']['max_capacity'], rc['max_capacity'] * rc['area'], 1e-6))
        if ce == 'convective':
            for k in q:
                h.check('cooling unit %s %d' % (k, i), h.eq(ec['convective'][k], q[k], 1e-9))
        h.observe('s%d' % i, [s['volume'], vt['mechanical'], vt['natural']] + list(vt['next_spaces']))


def rooms_reject(h):
    ids, types, what = h.cfg['ids'], h.cfg['types'], h.cfg['reject']
    n = len(ids)
    rs = [room(k, t=TYPES[t], volume=h.inp('volume%d' % k, 5.0, 300.0)) for k, t in enumerate(types)]
    for r, i in zip(rs, ids):
        r['id'] = i
    weather(h)
    bs = [b for i in range(n) for b in shell(3 * i, i)]
    try:
        make(h, doc(rs, bs))
        ok = True
    except (E.EngineError, NotImplementedError):
        raise
    except Exception:                                                     # noqa: BLE001
        ok = False
    h.check('rejected: ' + what if what else 'accepted', ok == (not what))
    h.observe('ok', [float(ok)])


# ------------------------------------------------------------------------------------------------- boundaries

def boundaries_spec(h):
    """cfg: list of [type, room, is_floor, key of temp_dif_coef or None, rear]"""
    bl = h.cfg['list']
    nr = h.cfg['rooms']
    heat, cool = h.cfg['heat'], h.cfg['cool']
    rs = [room(i, heat=heat[i], cool=cool[i]) for i in range(nr)]
    bs, ex = [], []
    for i, (bt, r, fl, td, rear) in enumerate(bl):
        a = h.inp('area%d' % i, 0.05, 500.0)
        hc, ri = h.inp('h_c%d' % i, 0.1, 20.0), h.inp('r_i%d' % i, 0.02, 0.5)
        sol = bool((i + r) % 2)
        o = dict(id=i, name='e%d' % i, connected_room_id=r, area=a, is_floor=fl, is_solar_absorbed_inside=sol, h_c=hc,
                 inside_heat_transfer_resistance=ri)
        t = None
        if bt.startswith('external'):
            t = 1.0 if td is None else h.inp('td%d' % i, 0.0, 1.0)
            o['temp_dif_coef'] = t
            o['is_sun_striked_outside'] = bool(i % 2)
        if bt == 'internal':
            o['rear_surface_boundary_id'] = rear
            o['outside_heat_transfer_resistance'] = 0.09 + 0.001 * i
        u = h.inp('u%d' % i, 0.05, 6.5)
        ro = h.inp('r_o%d' % i, 0.0, 0.5)
        cap, res = h.inp('cap%d' % i, 0.0, 300.0), h.inp('res%d' % i, 0.001, 20.0)
        o['u_value'], o['outside_heat_transfer_resistance'] = u, ro
        o['layers'] = [dict(name='x', thermal_capacity=cap, thermal_resistance=res), dict(WALLS[1])]
        b = element(bt, **o)
        if bt == 'external_transparent_part':
            del b['outside_solar_absorption']
        bs.append(b)
        ex.append((a, hc, ri, t, u, ro, cap, res, sol))
    weather(h)
    with h.expect_ok('a complete description is accepted'):
        o = make(h, doc(rs, bs))
    ob = o['boundaries']
    h.check('one boundary per element', len(ob) == len(bl))
    for i, ((bt, r, fl, td, rear), b, (a, hc, ri, t, u, ro, cap, res, sol)) in enumerate(zip(bl, ob, ex)):
        h.check('identity %d' % i, b['id'] == i and b['name'] == 'e%d' % i and b['connected_space_id'] == r)
        h.check('ground %d' % i, b['is_ground'] == ('true' if bt == 'ground' else 'false'))
        h.check('solar absorbing %d' % i, b['is_solar_absorbed'] == str(sol))
        h.check('area %d' % i, h.eq(b['area'], a, 1e-9))
        h.check('convective coefficient %d' % i, h.eq(b['h_c'], hc, 1e-9))
        h.check('surface coefficient %d' % i, h.eq(b['h_i'] * ri, 1.0, 1e-9))
        ki = b['k_inside']
        if bt.startswith('external'):
            h.check('outside influence %d' % i, h.eq(b['k_outside'], t, 1e-9))
            if ki is None:
                h.check('nothing but the outside behind %d' % i, h.ge(b['k_outside'], 1.0, 1e-9))
            else:
                h.check('own temperature behind %d' % i, ki['id'] == i)
                h.check('influences of %d add up to one' % i, h.eq(b['k_outside'] + ki['coef'], 1.0, 1e-9))
        elif bt == 'internal':
            h.check('no outside influence %d' % i, h.eq(b['k_outside'], 0.0, 1e-12))
            h.check('other side of %d' % i, ki is not None and ki['id'] == rear)
            if ki is not None:
                h.check('influence of the other side %d' % i, h.eq(ki['coef'], 1.0, 1e-12))
        else:
            h.check('ground sees its own temperature %d' % i, h.And(h.eq(b['k_outside'], 1.0, 1e-12), ki is None))
        sp = b['spec']
        h.check('kind %d' % i, sp['boundary_type'] == bt)
        if bt in ('external_general_part', 'internal', 'ground'):
            h.check('layers %d' % i, h.And(sp['method'] == ('layers_ground' if bt == 'ground' else 'layers'), len(sp['layers']) == 2,
                                           h.eq(sp['layers'][0]['thermal_capacity'], cap, 1e-9),
                                           h.eq(sp['layers'][0]['thermal_resistance'], res, 1e-9),
                                           h.eq(sp['layers'][1]['thermal_resistance'], 1.9, 1e-9)))
            if bt != 'ground':
                h.check('outside resistance %d' % i, h.eq(sp['outside_heat_transfer_resistance'], ro, 1e-9))
        else:
            h.check('U value %d' % i, h.And(sp['method'] == 'u_value', h.eq(sp['u_value'], u, 1e-9),
                                            h.eq(sp['inside_heat_transfer_resistance'], ri, 1e-9)))
        h.observe('b%d' % i, [b['k_outside'], b['flr'], b['f_mrt_hum'], b['h_i']])
    for r in range(nr):
        mine = [i for i, x in enumerate(bl) if x[1] == r]
        fl = [i for i in mine if bl[i][2]]
        of = [i for i in mine if not bl[i][2]]
        for grp, w in ((fl, 0.45), (of, 0.55)):
            tot = sum(ex[i][0] for i in grp)
            for i in grp:
                # f * total area = share * own area
                h.check('view factor %d' % i, h.eq(ob[i]['f_mrt_hum'] * tot, w * ex[i][0], 1e-6))
        tot = sum(ex[i][0] for i in fl)
        rad = heat[r] == 'radiative' or cool[r] == 'radiative'
        for i in mine:
            if rad and i in fl:
                h.check('panel share %d' % i, h.eq(ob[i]['flr'] * tot, ex[i][0], 1e-6))
            else:
                h.check('no panel share %d' % i, h.eq(ob[i]['flr'], 0.0, 1e-12))


# ------------------------------------------------------------------------------------------------------ series

def series(h):
    """Each room's transmitted solar radiation is that of its own elements; each element keeps its own outside temperature."""
    n = 4
    dn = [h.inp('i_dn%d' % k, 0.0, 1000.0) for k in range(n)]
    sk = [h.inp('i_sky%d' % k, 0.0, 500.0) for k in range(n)]
    th = [h.inp('theta%d' % k, -20.0, 38.0) for k in range(n)]
    hs, az = [0.05, 0.3, 0.8, -0.2], [-1.4, -0.7, 0.4, 2.5]
    if n > 3:
        dn[3] = 0.0
    rn = [h.inp('r_n%d' % k, 0.0, 150.0) for k in range(n)]
    wd = weather(h, n, full=True, **{'temperature': th, 'normal direct solar radiation': dn, 'horizontal sky solar radiation': sk, 'outward radiation': rn,
                     'sun altitude': hs, 'sun azimuth': az})
    bs = []
    ev = dict(existence=True, input_method='simple', depth=0.7, d_h=1.2, d_e=0.2)
    for i, (bt, r, d) in enumerate(h.cfg['list']):
        b = element(bt, id=i, connected_room_id=r, direction=d, area=3.0 + i, is_floor=(d == 'bottom'))
        if bt == 'internal':
            b['rear_surface_boundary_id'] = d
            del b['direction']
        if bt == 'external_transparent_part':
            del b['outside_solar_absorption']
            b['solar_shading_part'] = dict(ev, depth=0.5 + 0.1 * i)
        bs.append(b)
    nr = h.cfg['rooms']
    with h.expect_ok('a complete description is accepted'):
        make(h, doc([room(i, floor_area=20.0) for i in range(nr)], bs), full=True)
    q, t = h.load('mid_data_q_trs_sol.csv'), h.load('mid_data_theta_o_sol.csv')
    m = h.mod('initializer.boundary_simple')
    wd = {k: h.arr(v) for k, v in wd.items()}
    one = [m.get_boundary_simple(theta_o_ns=wd['temperature'], i_dn_ns=wd['normal direct solar radiation'],
                                 i_sky_ns=wd['horizontal sky solar radiation'], r_n_ns=wd['outward radiation'], a_sun_ns=wd['sun azimuth'],
                                 h_sun_ns=wd['sun altitude'], b=b) for b in bs]
    h.check('rows', len(q) >= n and len(t) >= n and all(len(r) == nr for r in q) and all(len(r) == len(bs) for r in t[:n]))
    for k in range(n):
        for r in range(nr):
            e = 0.0
            for b, o in zip(bs, one):
                if b['connected_room_id'] == r:
                    e = e + o.q_trs_sol[k]
            h.check('transmitted solar radiation of room %d[%d]' % (r, k), h.eq(q[k][r], e, 1e-6))
        for j, o in enumerate(one):
            h.check('outside temperature of element %d[%d]' % (j, k), h.eq(t[k][j], o.theta_o_sol[k], 1e-6))
    h.observe('q', [x for r in q[:n] for x in r])


# --------------------------------------------------------------------------------------------------- schedules

KINDS = ['local_vent_amount', 'heat_generation_appliances', 'vapor_generation_cooking', 'heat_generation_cooking',
         'heat_generation_lighting', 'number_of_people', 'is_temp_limit_set']
DAYS = ['平日', '休日外', '休日在']


def schedules(h):
    """Schedules of the household's size, day by day and quarter hour by quarter hour."""
    slots = h.cfg['slots']
    n = h.cfg.get('rooms', 2)
    rng = np.random.RandomState(3)
    sc, num = {}, {}
    for p in range(1, 5):
        sc[str(p)] = {}
        for r in range(min(n, 3)):                     # an underfloor space has no schedule
            sc[str(p)][NAMES[r]] = {}
            for d in DAYS:
                sc[str(p)][NAMES[r]][d] = {}
                for kd in KINDS:
                    v = [float(x) for x in np.round(rng.uniform(0.0, 9.0, 96), 3)]
                    for (dd, s) in slots:
                        if DAYS[dd] == d:
                            v[s] = h.inp('%s_%d_%d_%d_%d' % (kd, p, r, dd, s), 0.0, 1.0 if kd == 'is_temp_limit_set' else 100.0)
                    sc[str(p)][NAMES[r]][d][kd] = v
    cal = [DAYS[int(x)] for x in rng.randint(0, 3, 365)]
    cal[0], cal[1], cal[2], cal[364] = DAYS[0], DAYS[1], DAYS[2], DAYS[1]
    lo, hi = h.cfg['area']
    share = h.cfg.get('share', [0.7, 0.3] if n == 2 else [0.5, 0.3, 0.2, 0.0])
    if n == 1:
        share = [1.0]
    a = h.inp('floor', lo, hi) if lo < hi else lo
    if lo < hi:
        # the joints of the household sizes themselves are separate, concrete cases
        for x in (30.0, 60.0, 90.0, 120.0):
            h.assume(h.Or(h.le(a, x - 1e-6), h.ge(a, x + 1e-6)))
    rooms = [room(i, floor_area=a * share[i]) for i in range(n)]
    weather(h, 3, full=True)
    with package_file(h, 'initializer.schedule_loader', 'schedules.json', dict(calendar=cal, daily_schedule=sc)):
        with h.expect_ok('a complete description is accepted'):
            make(h, doc(rooms, [b for i in range(n) for b in shell(3 * i, i)]), full=True)
    out = {k: h.load('mid_data_%s.csv' % f) for k, f in (('lv', 'local_vent'), ('q', 'heat_generation'), ('x', 'moisture_generation'),
                                                          ('n', 'occupants'), ('ac', 'ac_demand'))}
    h.check('one row per quarter hour of the year', all(len(v) == 35040 and all(len(r) == n for r in v) for v in out.values()))
    # residents: one per 30 m2, at least one and at most four
    np_ = 1.0 if h.pick(h.le(a, 30.0)) else (4.0 if h.pick(h.ge(a, 120.0)) else a / 30.0)
    f = 1 if h.pick(h.lt(np_, 2.0)) else (2 if h.pick(h.lt(np_, 3.0)) else 3)
    w = np_ - float(f)

    def val(r, d, kd, s):
        if r == 3:
            return 0.0
        return sc[str(f)][NAMES[r]][d][kd][s] * (1.0 - w) + sc[str(f + 1)][NAMES[r]][d][kd][s] * w
    for r in range(n):
        ar = a * share[r]
        want = {}
        for d in DAYS:
            for s in range(96):
                ck, vp = val(r, d, 'heat_generation_cooking', s), val(r, d, 'vapor_generation_cooking', s)
                ap = val(r, d, 'heat_generation_appliances', s) + val(r, d, 'heat_generation_lighting', s) * ar
                want[d, s] = dict(lv=val(r, d, 'local_vent_amount', s) / 3600.0, q=ap + ck, x=vp / 3600000.0, n=val(r, d, 'number_of_people', s),
                                  ac=val(r, d, 'is_temp_limit_set', s), q_swap=ap + vp, x_swap=ck / 3600000.0)
        symb = {(DAYS[d], s) for d, s in slots}
        for k in ('lv', 'q', 'x', 'n', 'ac'):
            tol = dict(lv=1e-8, q=1e-5, x=1e-10, n=1e-6, ac=1e-8)[k]
            good, swap, seen = {}, {}, set()
            for day in range(365):
                for s in range(96):
                    t = (cal[day], s)
                    v = out[k][day * 96 + s][r]
                    key = (t, E.pkey(v.p) if isinstance(v, E.Sym) else float(v))
                    if key in seen:                     # the same value as on an earlier day of this kind
                        continue
                    seen.add(key)
                    g = good.setdefault(t if t in symb else (t[0], -1), [])
                    g.append(h.eq(v, want[t][k], tol))
                    if k in 'qx':
                        swap.setdefault(t if t in symb else (t[0], -1), []).append(h.eq(v, want[t][k + '_swap'], tol))
            for g in good:
                kn = {'K-COOK': h.And(*swap[g])} if k in 'qx' else None
                h.check('%s of room %d, %s %s' % (k, r, g[0], g[1] if g[1] >= 0 else 'other hours'), h.And(*good[g]), kn)
        h.observe('o%d' % r, [out[k][96 * 2 + slots[0][1]][r] for k in ('lv', 'q', 'n')])
