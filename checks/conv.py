"""Harnesses on the simplified house description (model house, target indices, description levels)."""
from symx import engine as E, shims

CASES = {'detached': [('floor', 'floor'), ('floor', 'base'), ('floor', 'not_exist'), ('base', None)], 'attached': [(None, None)]}
BATH = {'detached': (1.82, 1.82), 'attached': (2.1, 1.365)}
ENTR = {'detached': (1.365, 1.82), 'attached': (1.0, 1.0)}
DIRS = ('sw', 'nw', 'ne', 'se')


def tot(xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s


def clip0(x):
    return shims.s_max(x, 0.0) if isinstance(x, E.Sym) else max(x, 0.0)


def eq_pos(h, v, x, tol):
    """v equals x if x is positive, else zero."""
    return h.Or(h.And(h.ge(x, 0.0), h.eq(v, x, tol)), h.And(h.le(x, 0.0, tol), h.eq(v, 0.0, tol)))


def perimeter_parts(house, fl, bath):
    """(foundation lengths outside by direction without the rest, inside) of entrance and bath, foundation heights."""
    if house == 'attached':
        return [0.0] * 4, 0.0, 0.0, 0.0, 0.0, 0.0
    ms, os_ = ENTR[house]
    bms, bos = BATH[house]
    out = [0.0, os_, ms, 0.0]
    ins = 0.0 if fl == 'base' else ms + os_
    bo = bi = 0.0
    hb = 0.0
    if fl == 'base' or bath == 'base':
        out[1] += bos
        out[2] += bms
        bo = bms + bos
        bi = 0.0 if fl == 'base' else bo
        hb = 0.5
    return out, ins + bi, ms + os_ + ins, bo + bi, 0.18, hb


def model_house(h):
    """House shape from floor area, opening ratio and (optionally) envelope area, and the list of its parts."""
    c = h.cfg
    house, fl, bath = c['house'], c['floor'], c['bath']
    mh = h.mod('convert.model_house')
    a = h.inp('a', *c.get('a', (60.0, 250.0)))
    r = h.inp('r_open', 0.05, 0.20)
    env = None
    if c['env']:
        env = h.inp('env', 0.0, 3.5) * a
    with h.expect_ok('model house'):
        d = mh.calc_area(house_type=house, a_f_total=a, r_open=r, floor_ins_type=fl, bath_ins_type=bath, a_env_input=env)
    T = 1e-6
    n = 2 if house == 'detached' else 1
    af, prm, ms, os_, fs = d['a_f'], d['l_prm'], d['l_ms'], d['l_os'], d['f_s']
    h.check('storeys', len(af) == n)
    h.check('storey areas add up', h.eq(tot(af), a, T))
    if n == 2:
        h.check('upper storey', h.eq(af[1], 0.77 * af[0], T))
    ht = [2.9, 2.7] if n == 2 else [2.8]
    default = [1.08, 1.04] if n == 2 else [1.048215]
    for i in range(n):
        h.check('rectangle area %d' % i, h.eq(ms[i] * os_[i], af[i], 1e-5))
        h.check('rectangle perimeter %d' % i, h.eq(2.0 * (ms[i] + os_[i]), prm[i], T))
        h.check('shape factor %d' % i, h.eq(prm[i] * prm[i], 16.0 * af[i] * fs[i] * fs[i], 1e-4))
        h.check('not below square %d' % i, h.ge(fs[i], 1.0, 1e-9))
        h.check('side lengths %d' % i, h.le(os_[i], ms[i], 1e-9) if n == 2 else h.le(ms[i], os_[i], 1e-9))
        if env is None:
            h.check('default shape %d' % i, h.eq(fs[i], default[i], 1e-9))
    # floors
    h.check('roof', h.eq(d['a_evp_roof'], af[0], T))
    h.check('ground storey', h.eq(d['a_evp_ef_total'] + d['a_evp_f_total'], af[0], T))
    be, ee = BATH[house][0] * BATH[house][1], ENTR[house][0] * ENTR[house][1]
    if house == 'attached':
        ef = 0.0
    elif fl == 'base':
        ef = af[0]
    else:
        ef = ee + (be if bath == 'base' else 0.0)
    h.check('earth floor', h.eq(d['a_evp_ef_total'], ef, T))
    # foundation
    out, ins, le, lb, he, hb = perimeter_parts(house, fl, bath)
    side = [ms[0], os_[0], ms[0], os_[0]]
    lo = [side[k] if fl == 'base' else out[k] for k in range(4)]
    h.check_all_eq('foundation length', d['l_base_total_outside'], lo, T)
    h.check('foundation length inside', h.eq(d['l_base_total_inside'], ins, T))
    rest = tot(lo) - tot(out)
    base = he * le + hb * lb + 0.5 * rest
    h.check('foundation area', h.eq(tot(d['a_evp_base_total_outside']) + d['a_evp_base_total_inside'], base, T))
    # facades
    fac = [tot(x[i] * ht[i] for i in range(n)) for x in (ms, os_, ms, os_)]
    h.check_all_eq('facade', [tot(x) for x in d['a_evp_srf']], fac, T)
    nb = tot(fac) + 2.0 * af[0]
    h.check('envelope without foundation', h.eq(d['a_evp_total_not_base'], nb, T))
    h.check('envelope', h.eq(d['a_evp_total'], nb + base, T))
    if env is not None:
        # not below the envelope of square storeys (upper storey square)
        met = h.gt(fs[-1], 1.0 + 1e-9)
        h.check('given envelope', h.Implies(met, h.eq(d['a_evp_total'], env, 1e-5)))
        h.check('small envelope', h.Implies(h.Not(met), h.ge(d['a_evp_total'], env, 1e-5)))
        h.cover('given envelope met', met)
        h.cover('given envelope too small', h.Not(met))
    # openings
    door = [0.0, 1.89, 1.62, 0.0] if n == 2 else [0.0, 0.0, 1.755, 0.0]
    h.check_all_eq('door', d['a_evp_door'], door, T)
    rw = (0.6862, 0.0721, 0.1097, 0.1320) if n == 2 else (0.6330, 0.1517, 0.2153, 0.0)
    wt = r * nb - tot(door)
    h.check_all_eq('window', d['a_evp_window'], [wt * x for x in rw], T)
    h.check('openings', h.eq(tot(d['a_evp_window']) + tot(d['a_evp_door']), r * nb, T))
    wall = [fac[k] - wt * rw[k] - door[k] for k in range(4)]
    h.check_all_eq('wall', d['a_evp_wall'], wall, T)
    # parts
    with h.expect_ok('parts'):
        gps, ws, ds, eps, ecs = mh.get_model_house_no_spec(**d)
    h.check('area of parts', h.eq(tot(p.area for p in gps + ws + ds + ecs), nb + base, 1e-5))
    h.check('length of perimeters', h.eq(tot(p.length for p in eps), tot(lo) + ins, T))
    by = {}
    for kind, ps in (('gp', gps), ('w', ws), ('d', ds)):
        for p in ps:
            k = (kind, p.general_part_type.value if kind == 'gp' else '', p.next_space.value, p.direction.value)
            by[k] = by.get(k, 0.0) + p.area
    want = {}

    def put(k, v):
        want[k] = want.get(k, 0.0) + v
    O, A, S, U = 'outdoor', 'air_conditioned', 'open_space', 'open_underfloor'
    if n == 2:
        put(('gp', 'ceiling', O, 'top'), af[0])
        for k in range(4):
            put(('gp', 'wall', O, DIRS[k]), wall[k])
            put(('w', '', O, DIRS[k]), wt * rw[k])
        put(('d', '', O, 'nw'), 1.89)
        put(('d', '', O, 'ne'), 1.62)
        if fl == 'floor':
            put(('gp', 'floor', U, 'downward'), af[0] - ef)
            put(('gp', 'wall', U, 'horizontal'), d['a_evp_base_total_inside'])
        for k in range(4):
            if fl == 'base' or k in (1, 2):
                put(('gp', 'wall', O, DIRS[k]), d['a_evp_base_total_outside'][k])
    else:
        put(('gp', 'upward_boundary_floor', A, 'upward'), af[0])
        put(('gp', 'downward_boundary_floor', A, 'downward'), af[0])
        for k, key in enumerate([('wall', O, 'sw'), ('wall', O, 'nw'), ('wall', S, 'horizontal'), ('boundary_wall', A, 'horizontal')]):
            put(('gp',) + key, wall[k])
            if k < 3:
                put(('w', '') + key[1:], wt * rw[k])
        put(('d', '', S, 'horizontal'), 1.755)
    h.check('kinds of parts', set(by) == set(want))
    for k in sorted(want):
        if k in by:
            h.check('part %s' % '/'.join(x for x in k if x), h.eq(by[k], want[k], 1e-5))
    h.observe('total', d['a_evp_total'])


H_DIFF = {'outdoor': lambda r: 1.0, 'open_space': lambda r: 1.0, 'closed_space': lambda r: 0.7, 'open_underfloor': lambda r: 0.7,
          'air_conditioned': lambda r: 0.05 if r <= 3 else 0.15, 'closed_underfloor': lambda r: 0.05 if r <= 3 else 0.15}
NU_H = {'top': [1.0] * 7,
        'n': [0.260, 0.263, 0.284, 0.256, 0.238, 0.261, 0.227], 'ne': [0.333, 0.341, 0.348, 0.330, 0.310, 0.325, 0.281],
        'e': [0.564, 0.554, 0.540, 0.531, 0.568, 0.579, 0.543], 'se': [0.823, 0.766, 0.751, 0.724, 0.846, 0.833, 0.843],
        's': [0.935, 0.856, 0.851, 0.815, 0.983, 0.936, 1.023], 'sw': [0.790, 0.753, 0.750, 0.723, 0.815, 0.763, 0.848],
        'w': [0.535, 0.544, 0.542, 0.527, 0.538, 0.523, 0.548], 'nw': [0.325, 0.341, 0.351, 0.326, 0.297, 0.317, 0.284],
        'bottom': [0.0] * 7}
NU_C = {'top': [1.0] * 8,
        'n': [0.329, 0.341, 0.335, 0.322, 0.373, 0.341, 0.307, 0.325], 'ne': [0.430, 0.412, 0.390, 0.426, 0.437, 0.431, 0.415, 0.414],
        'e': [0.545, 0.503, 0.468, 0.518, 0.500, 0.512, 0.509, 0.515], 'se': [0.560, 0.527, 0.487, 0.508, 0.500, 0.498, 0.490, 0.528],
        's': [0.502, 0.507, 0.476, 0.437, 0.472, 0.434, 0.412, 0.480], 'sw': [0.526, 0.548, 0.550, 0.481, 0.520, 0.491, 0.479, 0.517],
        'w': [0.508, 0.529, 0.553, 0.481, 0.518, 0.504, 0.495, 0.505], 'nw': [0.411, 0.428, 0.447, 0.401, 0.442, 0.427, 0.406, 0.411],
        'bottom': [0.0] * 8}


def nu(direction, region, season):
    return (NU_H if season == 'heating' else NU_C)[direction][region - 1]


U_STD = {'ceiling': [.17, .17, .24, .24, .24, .24, .24, .24], 'wall': [.35, .35, .53, .53, .53, .53, .53, 4.10],
         'floor': [.34, .34, .34, .48, .48, .48, .48, 3.52], 'window': [2.33, 2.33, 3.49, 4.65, 4.65, 4.65, 4.65, 6.51],
         'psi': [.53, .53, .53, .76, .76, .76, .76, 1.80]}
U_STD.update(boundary_wall=U_STD['wall'], upward_boundary_floor=U_STD['ceiling'], downward_boundary_floor=U_STD['floor'], door=U_STD['window'])
U_MAX = {'ceiling': 1 / (.18 + .0095 / .22), 'wall': 1 / (.15 + .0095 / .22), 'floor': 1 / (.19 + .012 / .16), 'window': 6.51, 'door': 6.51,
         'boundary_wall': 1 / (.22 + .0095 / .22), 'upward_boundary_floor': 1 / (.18 + .0095 / .22),
         'downward_boundary_floor': 1 / (.30 + .012 / .16), 'psi': 100.0}


def f_simple(region, season, direction, depth, d_h, d_e):
    """Correction of the solar gain of a window with a simple sunshade (before the upper limit)."""
    if season == 'heating':
        if direction in ('sw', 's', 'se'):
            return 0.01 * (5 + 20 * (3 * d_e + d_h) / depth), 0.72
        return 0.01 * (10 + 15 * (2 * d_e + d_h) / depth), 0.72
    if region == 8 and direction in ('sw', 's', 'se'):
        return 0.01 * (16 + 19 * (2 * d_e + d_h) / depth), 0.93
    if region != 8 and direction == 's':
        return 0.01 * (24 + 9 * (3 * d_e + d_h) / depth), 0.93
    return 0.01 * (16 + 24 * (2 * d_e + d_h) / depth), 0.93


def u_value(p):
    return p['spec']['u_value_other'] if 'u_value_other' in p['spec'] else p['spec']['u_value']


def heat_loss(env, region):
    """W/K of the written house."""
    return (tot(p['area'] * u_value(p) * H_DIFF[p['next_space']](region) for p in env['general_parts'] + env['windows'] + env['doors'])
            + tot(p['length'] * p['spec']['psi_value'] * H_DIFF[p['next_space']](region) for p in env['earthfloor_perimeters']))


def solar_gain(env, region, season, opaque=True, eta=None):
    """W/(W/m2) of the written house."""
    q = 0.0
    if opaque:
        q = tot(0.034 * p['area'] * u_value(p) * nu(p['direction'], region, season)
                for p in env['general_parts'] + env['doors'] if p['next_space'] == 'outdoor')
    for p in env['windows']:
        if p['next_space'] == 'outdoor':
            s = p['sunshade']
            f, cap = f_simple(region, season, p['direction'], s['depth'], s['d_h'], s['d_e'])
            q = q + p['area'] * (p['spec']['eta_d_%s_value' % season[0]] if eta is None else eta) * min(f, cap) * nu(p['direction'], region, season)
    return q


def indices(h):
    """House made from target indices; the indices of the written house."""
    c = h.cfg
    house, region = c['house'], c['region']
    if 'shape' in c:
        a, env = c['shape'][0], c['shape'][0] * c['shape'][1]
    elif 'a' in c:
        a = c['a']
        env = h.inp('env', c['e'][0] * a, c['e'][1] * a)
    else:
        a = h.inp('a', 60.0, 200.0)
        env = h.inp('env', 1.5, 3.5) * a
    if 'target' in c:
        ua, eh, ec = c['target']
    else:
        ua, eh, ec = h.inp('u_a', *c['u']), h.inp('eta_a_h', 0.3, 6.0), h.inp('eta_a_c', 0.3, 6.0)
    if region == 8:
        eh = None
    conv = h.mod('convert.convert_indices_to_lv2_info')
    with h.expect_ok('conversion'):
        r = conv.convert_spec({'common': {'region': region, 'house_type': house, 'main_occupant_room_floor_area': 0.3 * a,
                                          'other_occupant_room_floor_area': 0.4 * a, 'total_floor_area': a},
                               'envelope': {'input_method': 'index', 'total_area': env, 'indices': {'u_a': ua, 'eta_a_h': eh, 'eta_a_c': ec}}})
    parts = r['general_parts'] + r['windows'] + r['doors']
    area = tot(p['area'] for p in parts + r['earthfloor_centers'])
    # coefficients by kind
    u = {}
    for p in r['general_parts']:
        u.setdefault(p['general_part_type'], []).append(u_value(p))
    for k, ps in (('window', r['windows']), ('door', r['doors'])):
        u[k] = [u_value(p) for p in ps]
    u['psi'] = [p['spec']['psi_value'] for p in r['earthfloor_perimeters']]
    u = {k: v for k, v in u.items() if v}
    at_max = []
    ks = sorted(u)
    for k in ks:
        for i, v in enumerate(u[k][1:]):
            h.check('one coefficient for %s %d' % (k, i), h.eq(v, u[k][0], 1e-9))
        at_max.append(h.eq(u[k][0], U_MAX[k], 1e-6))
        h.check('limit of %s' % k, h.between(0.0, u[k][0], U_MAX[k], 1e-6))
    std = {k: U_STD[k][region - 1] for k in ks}
    for i, k in enumerate(ks):
        for j in ks[:i]:
            a1, b1 = u[k][0] * std[j], u[j][0] * std[k]
            h.check('in proportion to the standard %s/%s' % (k, j), h.Or(h.eq(a1, b1, 1e-6), h.And(h.lt(a1, b1), at_max[i]),
                                                                         h.And(h.lt(b1, a1), at_max[ks.index(j)])))
    loss = heat_loss(r, region)
    allmax = h.And(*at_max)
    h.check('UA', h.Or(h.eq(loss, ua * area, 1e-4), h.And(allmax, h.le(loss, ua * area, 1e-4))))
    if 'target' not in c:
        h.cover('UA met', h.eq(loss, ua * area, 1e-4))
    for season, target in (('heating', eh), ('cooling', ec)):
        es = [p['spec']['eta_d_%s_value' % season[0]] for p in r['windows']]
        if target is None:
            h.check('no heating season', all(x is None for x in es))
            continue
        e = es[0]
        for i, x in enumerate(es):
            h.check('one window coefficient %s %d' % (season, i), h.eq(x, e, 1e-9))
        h.check('range of eta_d %s' % season, h.between(0.0, e, 0.88, 1e-9))
        g, t = 100.0 * solar_gain(r, region, season), target * area
        h.check('eta_A %s' % season, h.Or(h.eq(g, t, 0.01), h.And(h.eq(e, 0.0, 1e-9), h.ge(g, t, 0.01)),
                                          h.And(h.eq(e, 0.88, 1e-9), h.le(g, t, 0.01))))
        if 'target' not in c:
            h.cover('eta_A %s met' % season, h.eq(g, t, 0.01))
    if c.get('cue'):
        cue = h.mod('convert.check_ua_a_eta_a')
        with h.expect_ok('indices of the house'):
            x, y, z = cue.check_u_a_and_eta_a(region=region, model_house_envelope=r)
        h.check('reported UA', h.eq(x * area, loss, 1e-4))
        h.check('reported eta_A cooling', h.eq(z * area, 100.0 * solar_gain(r, region, 'cooling'), 0.01))
        if eh is None:
            h.check('reported eta_A heating', y is None)
        else:
            h.check('reported eta_A heating', h.eq(y * area, 100.0 * solar_gain(r, region, 'heating'), 0.01))
    h.observe('loss', loss)


ROOMS3 = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']


def layer(name, t=None, k=None, r=None, c=830.0):
    d = dict(name=name, heat_resistance_input_method='conductivity' if r is None else 'resistance', thickness=0.0125 if t is None else t,
             volumetric_specific_heat=c)
    d.update(dict(thermal_conductivity=0.22 if k is None else k) if r is None else dict(thermal_resistance=r))
    return d


def spec_wood(**o):
    d = dict(structure='wood', r_srf_in=0.11, r_srf_ex=0.04, parts=[
        dict(name='insulated', part_area_ratio=0.83, layers=[layer('board'), layer('wool', 0.105, 0.045, c=13.0)]),
        dict(name='stud', part_area_ratio=0.17, layers=[layer('board'), layer('wood', 0.105, 0.12, c=520.0)])])
    d.update(o)
    return d


def spec_other(u=0.53, w='light'):
    return dict(structure='other', u_value_other=u, weight=w)


def gp(i, kind='wall', space='outdoor', direction='s', area=20.0, room='undefined', spec=None, shade=None):
    return dict(name='part%d' % i, general_part_type=kind, next_space=space, direction=direction, area=area, space_type=room,
                spec=spec or spec_other(), sunshade=shade or (dict(is_defined=True, input='not_input') if space == 'outdoor' else dict(is_defined=False)))


def window(i, space='outdoor', direction='s', area=5.0, room='undefined', shade=None, u=3.49, eh=0.51, ec=0.49):
    return dict(name='window%d' % i, next_space=space, direction=direction, area=area, space_type=room,
                sunshade=shade or (dict(is_defined=True, input='simple', depth=0.5, d_h=1.1, d_e=0.2) if space == 'outdoor' else dict(is_defined=False)),
                spec=dict(u_value=u, eta_d_h_value=eh, eta_d_c_value=ec, glass_type='double', flame_type='wood'))


def door(i, space='outdoor', direction='n', area=1.8, room='undefined', u=2.33, shade=None):
    return dict(name='door%d' % i, next_space=space, direction=direction, area=area, space_type=room,
                sunshade=shade or dict(is_defined=True, input='not_input') if space == 'outdoor' else dict(is_defined=False), spec=dict(u_value=u))


def bridge(i, spaces=('outdoor', 'outdoor'), dirs=('s', 'w'), length=5.0, room='undefined', psi=0.2):
    return dict(name='bridge%d' % i, next_spaces=list(spaces), directions=list(dirs), length=length, space_type=room, spec=dict(psi_value=psi))


def perim(i, space='outdoor', length=4.0, room='undefined', psi=0.9):
    return dict(name='perimeter%d' % i, next_space=space, length=length, space_type=room, spec=dict(psi_value=psi))


def center(i, area=6.0, room='undefined', layers=None):
    return dict(name='center%d' % i, area=area, space_type=room, spec=dict(layers=layers or []))


def same(h, name, a, b, tol=1e-9):
    """Both documents equal (numbers up to tol)."""
    if isinstance(a, dict) and isinstance(b, dict):
        h.check(name + ' keys', set(a) == set(b))
        for k in a:
            if k in b:
                same(h, '%s.%s' % (name, k), a[k], b[k], tol)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        h.check(name + ' length', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(h, '%s[%d]' % (name, i), x, y, tol)
    elif isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        h.check(name, type(a) is type(b) and a == b)
    else:
        h.check(name, h.eq(a, b, tol))


def lv3(h):
    """Distribution of a house without room usage to its rooms."""
    c = h.cfg
    mr, ot = h.inp('mr', 0.5, 300.0), h.inp('or', 0.0, 300.0)
    total = h.inp('total', 5.0, 1000.0)
    h.assume(h.le(mr + ot, total))
    v = [h.inp('x%d' % i, 0.05, 300.0) for i in range(10)]
    complex_ = dict(is_defined=True, input='complex', x1=.1, x2=1.6, x3=.2, y1=.3, y2=1.1, y3=.4, z_x_pls=.5, z_x_mns=.6, z_y_pls=.7, z_y_mns=.8)
    shades = [dict(is_defined=True, input='not_input'), complex_, dict(is_defined=True, input='simple', depth=0.4, d_h=1.9, d_e=0.15),
              dict(is_defined=True, input='not_exist')]
    k = c.get('variant', 0)
    sh = [shades[(k + j) % 4] for j in range(4)]
    op = [shades[(k + j) % 2] for j in range(2)]
    dirs = ['s', 'ne', 'w', 'nw'][k], ['n', 'e', 'sw', 'se'][k]
    spaces = ['open_space', 'open_underfloor', 'closed_space', 'air_conditioned', 'closed_underfloor']
    other = spaces[k]
    env = dict(input_method='detail_without_room_usage',
               general_parts=[gp(0, 'wall', 'outdoor', dirs[0], v[0], spec=spec_wood(), shade=op[0]), gp(1, 'ceiling', 'outdoor', 'top', v[1], shade=op[1]),
                              gp(2, 'floor', other, 'downward', v[2], spec=spec_other(0.48, 'heavy'))],
               windows=[window(0, direction=dirs[1], area=v[3], shade=sh[0]), window(2, direction=dirs[0], area=v[3], shade=sh[1]), window(1, other, 'horizontal', v[4])],
               doors=[door(0, direction=dirs[0], area=v[5], shade=op[1]), door(1, other, 'horizontal', v[5])],
               heat_bridges=[bridge(0, length=v[6], dirs=dirs), bridge(1, ('outdoor', other), (dirs[0], 'horizontal'), v[7], psi=0.35)],
               earthfloor_perimeters=[perim(0, length=v[8]), perim(1, 'open_underfloor', 3.3)],
               earthfloor_centers=[center(0, v[9], layers=[dict(name='concrete', thermal_resistance=0.1, thermal_capacity=250.0)])])
    m = h.mod('convert.convert_lv2_to_lv3')
    with h.expect_ok('distribution'):
        out = m.convert_spec(common=dict(main_occupant_room_floor_area=mr, other_occupant_room_floor_area=ot, total_floor_area=total), envelope=env)
    share = dict(zip(ROOMS3, (mr, ot, total - mr - ot)))
    for kind in ('general_parts', 'windows', 'doors', 'heat_bridges'):
        q = 'length' if kind == 'heat_bridges' else 'area'
        h.check(kind + ' count', len(out[kind]) == 3 * len(env[kind]))
        names = [p['name'] for p in out[kind]]
        h.check(kind + ' names', len(set(names)) == len(names))
        for src in env[kind]:
            mine = [p for p in out[kind] if p['name'].startswith(src['name'] + '_')]
            h.check(src['name'] + ' rooms', sorted(p['space_type'] for p in mine) == sorted(ROOMS3))
            h.check(src['name'] + ' total', h.eq(tot(p[q] for p in mine), src[q], 1e-7))
            for p in mine:
                h.check('%s %s' % (src['name'], p['space_type']), h.eq(p[q] * total, src[q] * share[p['space_type']], 1e-5))
                rest = lambda d: {k: x for k, x in d.items() if k not in ('name', 'space_type', q)}     # noqa: E731
                same(h, p['name'], rest(p), rest(src))
    for kind in ('earthfloor_perimeters', 'earthfloor_centers'):
        h.check(kind + ' count', len(out[kind]) == len(env[kind]))
        for p, src in zip(out[kind], env[kind]):
            same(h, p['name'], p, dict(src, space_type='underfloor'))
    h.check('level', out['input_method'] == 'detail_with_room_usage')
    for region in (2, 6):
        h.check('heat loss %d' % region, h.eq(heat_loss(dict(out, general_parts=[]), region), heat_loss(dict(env, general_parts=[]), region), 1e-4))
    h.observe('names', len(out['general_parts']))


def lv4(h):
    """Floors and walls between the rooms of a house with room usage."""
    c = h.cfg
    if 'areas' in c:
        mr, ot, total = c['areas']
    else:
        mr = h.inp('mr', 8.0, 60.0)
        ot = h.inp('or', 5.0, 80.0) if c['other'] else 0.0
        non = h.inp('non', 3.0, 90.0) if c['non'] else 0.0
        total = mr + ot + non
    have = {'main_occupant_room': True, 'other_occupant_room': c['other'], 'non_occupant_room': c['non']}
    rooms = [r for r in ROOMS3 if have[r]]
    A = dict(main_occupant_room=mr, other_occupant_room=ot, non_occupant_room=(total - mr - ot) if c['non'] else 0.0)
    gps, ws, ds, ecs = [], [], [], []
    down, side, earth = {}, {}, {}
    walls = c['part'] == 'walls'
    wsum = {r: h.inp('w%d' % i, 0.5, 100.0) if walls else 500.0 + i for i, r in enumerate(rooms)}
    for i, r in enumerate(rooms):
        wl, wi, d1, d2 = wsum[r], 4.0 + i, 0.5 if walls else h.inp('d%d' % i, 0.5, 40.0) if i in c.get('dsym', (0, 1, 2)) else 2.5, (0.2 if walls else 1.5) + 0.1 * i
        gps += [gp(10 * i, 'wall', 'outdoor', ('s', 'nw', 'e')[i], wl, r), gp(10 * i + 1, 'wall', 'open_underfloor', 'horizontal', 2.0, r),
                gp(10 * i + 2, 'ceiling', 'outdoor', 'top', 30.0, r), gp(10 * i + 3, 'floor', 'open_underfloor', 'downward', d1, r),
                gp(10 * i + 4, 'floor', 'outdoor', 'bottom', d2, r), gp(10 * i + 5, 'upward_boundary_floor', 'air_conditioned', 'upward', 5.0, r)]
        ws += [window(i, direction=('sw', 'n', 'ne')[i], area=wi, room=r), window(10 + i, direction='top', area=0.7, room=r)]
        ds += [door(i, direction=('w', 'se', 'n')[i], area=1.8, room=r)]
        down[r], side[r] = d1 + d2, wl + 2.0 + wi + 1.8
        earth[r] = 0.0
        if i in c.get('earth', []):
            earth[r] = 2.0 if walls or i not in c.get('esym', (0, 1, 2)) else h.inp('e%d' % i, 0.5, 10.0)
            ecs.append(center(i, earth[r], r))
    uf = 0.0
    if c['uf']:
        uf = 1.0 if walls else h.inp('uf', 1.0, 100.0)
        ecs += [center(8, uf - 0.5, 'underfloor'), center(9, 0.5, 'underfloor')]
    inner = {r: clip0(A[r] - down[r] - earth[r]) for r in rooms}
    if not walls:
        for r in rooms:
            raw = A[r] - down[r] - earth[r]
            h.assume(h.Or(h.ge(raw, 0.01), h.le(raw, -0.01)))
    env = dict(input_method='detail_with_room_usage', general_parts=gps, windows=ws, doors=ds, heat_bridges=[bridge(0, room='main_occupant_room')],
               earthfloor_perimeters=[perim(0, room='underfloor')], earthfloor_centers=ecs)
    m = h.mod('convert.convert_lv3_to_lv4')
    with h.expect_ok('partitions'):
        out = m.convert_spec(common=dict(main_occupant_room_floor_area=mr, other_occupant_room_floor_area=ot, total_floor_area=total), envelope=env)
    if c.get('copy'):
        for kind in ('general_parts', 'windows', 'doors', 'heat_bridges', 'earthfloor_perimeters', 'earthfloor_centers'):
            same(h, kind, out[kind], env[kind])
    (lv4_walls if walls else lv4_floors)(h, out, rooms, A, inner, side, uf)
    h.observe('floors', len(out['inner_floors']))


def lv4_floors(h, out, rooms, A, inner, side, uf):
    T = 1e-6
    fl, seen = {}, []
    for p in out['inner_floors']:
        k = (p['upper_space_type'], p['lower_space_type'])
        seen.append(k)
        h.check('floor %s over %s exists' % k, k[0] in rooms and k[1] in rooms + ['underfloor'] and k[0] != k[1])
        h.check('floor %s over %s area' % k, h.gt(p['area'], 0.0))
        fl[k] = p['area']
        L = p['spec']['layers']
        h.check('floor %s over %s layers' % k, len(L) == 1 and L[0]['thickness'] == 0.024 and L[0]['thermal_conductivity'] == 0.16
                and L[0]['volumetric_specific_heat'] == 720.0 and L[0]['heat_resistance_input_method'] == 'conductivity')
    h.check('floors named once', len(set(seen)) == len(seen) and len(set(p['name'] for p in out['inner_floors'])) == len(seen))
    s = tot(inner[r] for r in rooms)
    some = h.gt(s, 0.0)
    h.check('floors over the underfloor', h.Implies(some, h.eq(tot(fl.get((r, 'underfloor'), 0.0) for r in rooms), uf, T)))
    for r in rooms:
        over = fl.get((r, 'underfloor'), 0.0)
        h.check('%s over the underfloor' % r, h.eq(over * s, inner[r] * uf, 1e-4))
        others = [x for x in rooms if x != r]
        for o in others:
            rest = inner[r] - over
            h.check('%s over %s' % (r, o), eq_pos(h, fl.get((r, o), 0.0), rest / len(others), T))
        if others:
            h.check('floor of %s covered' % r, h.Implies(h.le(uf, s), h.eq(over + tot(fl.get((r, o), 0.0) for o in others), inner[r], T)))


def lv4_walls(h, out, rooms, A, inner, side, uf):
    n = len(rooms)
    wa, seen = {}, []
    for p in out['inner_walls']:
        k = (p['space_type_1'], p['space_type_2'])
        seen.append(tuple(sorted(k)))
        h.check('wall %s/%s exists' % k, k[0] in rooms and k[1] in rooms and k[0] != k[1])
        h.check('wall %s/%s area' % k, h.gt(p['area'], 0.0))
        wa[frozenset(k)] = p['area']
        L = p['spec']['layers']
        h.check('wall %s/%s layers' % k, len(L) == 3 and all(x['thickness'] == 0.0125 and x['thermal_conductivity'] == 0.22
                                                             and x['volumetric_specific_heat'] == 830.0 for x in (L[0], L[2]))
                and L[1]['thermal_resistance'] == 0.09 and L[1]['volumetric_specific_heat'] == 0.0)
    h.check('walls named once', len(set(seen)) == len(seen))
    f = dict(main_occupant_room=1.2, other_occupant_room=1.4, non_occupant_room=1.4)
    need = {r: clip0(4.0 * f[r] * 2.8 * A[r] ** 0.5 - side[r]) for r in rooms}
    if n == 2:
        h.check('wall', h.eq(wa.get(frozenset(rooms), 0.0), (need[rooms[0]] + need[rooms[1]]) / 2.0, 1e-5))
    if n == 3:
        for i in range(3):
            a, b, x = rooms[i], rooms[(i + 1) % 3], rooms[(i + 2) % 3]
            h.check('wall %s/%s' % (a, b), eq_pos(h, wa.get(frozenset((a, b)), 0.0), (need[a] + need[b] - need[x]) / 2.0, 1e-5))
    if n == 1:
        h.check('no partition walls', not wa)
