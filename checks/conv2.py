"""Harnesses on single parts of the energy-standard description of a house."""
import copy
from .conv import (H_DIFF, NU_C, nu, f_simple, tot, clip0, same, layer, gp, window, door, bridge, perim, center, spec_other)
from symx import engine as E, shims

KINDS = ('roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor')
RSI = dict(roof=0.09, ceiling=0.09, wall=0.11, floor=0.15, boundary_wall=0.11, upward_boundary_floor=0.09, downward_boundary_floor=0.15)
RSE = dict(roof=0.04, ceiling=0.09, wall=0.04, floor=0.15, boundary_wall=0.11, upward_boundary_floor=0.09, downward_boundary_floor=0.15)
BOARD, PLY12, PLY24, CONC = (0.0095, 830.0, 0.221), (0.012, 720.0, 0.16), (0.024, 720.0, 0.16), (0.120, 2000.0, 1.6)
INS = None
LIGHT = dict(roof=[BOARD, INS], ceiling=[BOARD, INS], wall=[BOARD, INS, PLY12], floor=[PLY24, INS], boundary_wall=[BOARD, INS, BOARD],
             upward_boundary_floor=[BOARD, INS, PLY24], downward_boundary_floor=[PLY24, INS, BOARD])
HEAVY = dict(roof=[BOARD, INS, CONC], ceiling=[BOARD, INS, CONC], wall=[BOARD, INS, CONC], floor=[PLY24, INS, CONC],
             boundary_wall=[BOARD, INS, BOARD], upward_boundary_floor=[BOARD, CONC, INS, PLY24], downward_boundary_floor=[PLY24, INS, CONC, BOARD])
ROOM = dict(main_occupant_room=0, other_occupant_room=1, non_occupant_room=2, underfloor=3)
DIRECTIONS = ('s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom')


def boundary(h, c, b, i, name, kind, area, ratio, ri, ro):
    """Everything of a boundary handed to the calculation except its layers."""
    sun = c['space'] == 'outdoor'
    h.check('name %d' % i, b['name'] == name)
    h.check('room %d' % i, b['connected_room_id'] == ROOM[c['room']])
    h.check('kind %d' % i, b['boundary_type'] == 'external_general_part')
    h.check('area %d' % i, h.eq(b['area'], area * ratio, 1e-9))
    h.check('sun %d' % i, b['is_sun_striked_outside'] is sun and (b.get('direction') == c['direction'] if sun else 'direction' not in b))
    h.check('temperature difference coefficient %d' % i, b['temp_dif_coef'] == H_DIFF[c['space']](c['region']))
    h.check('floor absorbs sun %d' % i, b['is_solar_absorbed_inside'] is (kind in ('floor', 'downward_boundary_floor')))
    h.check('surface resistances %d' % i, h.And(h.eq(b['inside_heat_transfer_resistance'], ri, 1e-12), h.eq(b['outside_heat_transfer_resistance'], ro, 1e-12)))
    h.check('surface %d' % i, b['outside_emissivity'] == 0.9 and b['outside_solar_absorption'] == 0.8)


def part_layers(h):
    """Layered general part: U value and layers handed to the calculation."""
    c = h.cfg
    area, add = h.inp('area', 0.01, 200.0), h.inp('u_add', 0.0, 0.3) if c['add'] else 0.0
    ri, ro = h.inp('ri', 0.03, 0.2), h.inp('ro', 0.03, 0.2)
    ur = h.inp('u_steel', 0.0, 0.4) if c['structure'] == 'steel' else 0.0
    share = h.inp('share', 0.01, 0.99)
    shares = [share, 1.0 - share] if c['parts'] == 2 else [1.0]
    parts, rs, cs = [], [], []
    for i, s in enumerate(shares):
        t, k, r, cap = h.inp('t%d' % i, 0.005, 0.3), (0.045, 0.12)[i], h.inp('r%d' % i, 0.05, 3.0), h.inp('c%d' % i, 5.0, 2000.0)
        ls = [layer('board'), layer('core', t, k, c=cap), layer('given', 0.02, r=r, c=13.0)]
        rs.append([0.0125 / 0.22, t / k, r])
        cs.append([0.0125 * 830.0, t * cap, 0.02 * 13.0])
        if i:
            ls, rs[i], cs[i] = ls[1:], rs[i][1:], cs[i][1:]
        parts.append(dict(name='p%d' % i, part_area_ratio=s, layers=ls))
    spec = dict(structure=c['structure'], r_srf_in=ri, r_srf_ex=ro, parts=parts)
    if c['structure'] == 'steel':
        spec['u_r_value_steel'] = ur
    d = gp(0, c['kind'], c['space'], c['direction'], area, c['room'], spec)
    m = h.mod('convert.ees_house')
    with h.expect_ok('general part'):
        g = m.GeneralPart.make_general_part(d)
        u, eta = g.get_u(), g.get_eta()
        bs = g.make_initializer_dict(u_add=add, region=c['region'])
    rt = [tot(r) for r in rs]
    want = tot(s / (ri + r + ro) for s, r in zip(shares, rt)) + ur
    h.check('U value', h.eq(u, want, 1e-9))
    h.check('solar gain', h.eq(eta, 0.034 * want, 1e-9))
    h.check('one boundary per part', len(bs) == len(shares))
    for i, b in enumerate(bs):
        boundary(h, c, b, i, 'part0_p%d' % i, c['kind'], area, shares[i], ri, ro)
        L = b['layers']
        h.check('layers %d' % i, len(L) == len(rs[i]) and [x['name'] for x in L] == [x['name'] for x in parts[i]['layers']])
        R = tot(x['thermal_resistance'] for x in L)
        # conductance air to air = that of the part plus the additions
        h.check('conductance %d' % i, h.eq((ri + R + ro) * (1.0 + (add + ur) * (ri + rt[i] + ro)), ri + rt[i] + ro, 1e-7))
        for k, x in enumerate(L):
            h.check('resistance %d.%d' % (i, k), h.eq(x['thermal_resistance'] * rt[i], rs[i][k] * R, 1e-7))
            h.check('capacity %d.%d' % (i, k), h.eq(x['thermal_capacity'], cs[i][k], 1e-7))
    h.observe('u', u)


def part_u(h):
    """General part given by its U value: layers assumed for its kind and weight."""
    c = h.cfg
    area, u, add = h.inp('area', 0.01, 200.0), h.inp('u', 0.05, 6.0), h.inp('u_add', 0.0, 0.2) if c['add'] else 0.0
    kind = c['kind']
    d = gp(0, kind, c['space'], c['direction'], area, c['room'], spec_other(u, c['weight']))
    m = h.mod('convert.ees_house')
    ri, ro = RSI[kind], RSE[kind]
    tab = (LIGHT if c['weight'] == 'light' else HEAVY)[kind]
    rest = tot(x[0] / x[2] for x in tab if x)
    ins = clip0(1.0 / u - ri - ro - rest)
    full = ri + ro + rest + ins
    with h.expect_ok('general part'):
        g = m.GeneralPart.make_general_part(d)
        h.check('U value', h.eq(g.get_u(), u, 1e-12))
        h.check('solar gain', h.eq(g.get_eta(), 0.034 * u, 1e-12))
        bs = g.make_initializer_dict(u_add=add, region=c['region'])
    h.check('one boundary', len(bs) == 1)
    b = bs[0]
    boundary(h, c, b, 0, 'part0_sole_part', kind, area, 1.0, ri, ro)
    L = b['layers']
    h.check('layers', len(L) == len(tab))
    R = tot(x['thermal_resistance'] for x in L)
    h.check('conductance', h.eq((ri + R + ro) * (1.0 + add * full), full, 1e-7))
    for k, (x, t) in enumerate(zip(L, tab)):
        r, cap = (t[0] / t[2], t[0] * t[1]) if t else (ins, ins * 0.045 * 13.0)
        h.check('resistance %d' % k, h.eq(x['thermal_resistance'] * (rest + ins), r * R, 1e-7))
        h.check('capacity %d' % k, h.eq(x['thermal_capacity'], cap, 1e-7))
    h.observe('r', R)


def door_out(h):
    c = h.cfg
    area, u = h.inp('area', 0.1, 20.0), h.inp('u', 0.1, 6.5)
    m = h.mod('convert.ees_house')
    with h.expect_ok('door'):
        b = m.Door.make_door(door(0, c['space'], c['direction'], area, c['room'], u)).make_initializer_dict(region=c['region'])
    sun = c['space'] == 'outdoor'
    h.check('door', b['name'] == 'door0' and b['connected_room_id'] == ROOM[c['room']] and b['boundary_type'] == 'external_opaque_part'
            and b['is_sun_striked_outside'] is sun and b['is_solar_absorbed_inside'] is False and b['temp_dif_coef'] == H_DIFF[c['space']](c['region'])
            and (not sun or b['direction'] == c['direction']))
    h.check('door area', h.eq(b['area'], area, 1e-12))
    h.check('door U', h.eq(b['u_value'], u, 1e-12))
    h.observe('u', b['u_value'])


SHADES = dict(undefined=dict(is_defined=False), not_input=dict(is_defined=True, input='not_input'), not_exist=dict(is_defined=True, input='not_exist'))
GEO = ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns')


def shade(h, kind, pre=''):
    if kind == 'simple':
        return dict(is_defined=True, input='simple', depth=h.inp(pre + 'depth', 0.01, 4.0), d_h=h.inp(pre + 'd_h', 0.3, 2.5), d_e=h.inp(pre + 'd_e', 0.0, 1.0))
    if kind == 'complex':
        return dict(is_defined=True, input='complex', **{k: h.inp(pre + k, 0.0, 3.0) for k in GEO})
    return dict(SHADES[kind])


def losses(h):
    """Heat loss and solar gain of single parts."""
    c = h.cfg
    what, region, season = c['what'], c['region'], c['season']
    m = h.mod('convert.ees_house')
    size = h.inp('size', 0.01, 300.0)
    for sp in H_DIFF:
        if sp != 'outdoor':
            ds = ['horizontal']
        elif what == 'perimeter':
            ds = [None]
        else:
            ds = DIRECTIONS
        for dr in ds:
            n = nu(dr, region, season) if sp == 'outdoor' and dr else 0.0
            hd = H_DIFF[sp](region)
            tag = '%s %s' % (sp, dr)
            with h.expect_ok(tag):
                if what == 'part':
                    u = h.inp('u', 0.1, 6.0)
                    o = m.GeneralPart.make_general_part(gp(0, 'wall', sp, dr, size, 'undefined', spec_other(u)))
                    q, g = size * u * hd, 0.034 * size * u * n
                elif what == 'door':
                    u = h.inp('u', 0.1, 6.0)
                    o = m.Door.make_door(door(0, sp, dr, size, 'undefined', u))
                    q, g = size * u * hd, 0.034 * size * u * n
                elif what == 'perimeter':
                    u = h.inp('u', 0.1, 3.0)
                    o = m.EarthfloorPerimeter.make_earthfloor_perimeter(perim(0, sp, size, 'undefined', u))
                    q, g = size * u * hd, None
                elif what == 'bridge':
                    u = h.inp('u', 0.1, 3.0)
                    other = ('outdoor', 'n')
                    o = m.Heatbridge.make_heatbridge(bridge(0, (sp, other[0]), (dr, other[1]), size, 'undefined', u))
                    q, g = size * u * (hd + 1.0) / 2.0, 0.034 * size * u * (n + nu('n', region, season)) / 2.0
                else:
                    u, eh, ec = h.inp('u', 0.5, 6.5), h.inp('eta_h', 0.0, 0.88), h.inp('eta_c', 0.0, 0.88)
                    s = shade(h, c['shade']) if sp == 'outdoor' else dict(is_defined=False)
                    o = m.Window.make_window(window(0, sp, dr, size, 'undefined', s, u, eh, ec))
                    eta = eh if season == 'heating' else ec
                    q = size * u * hd
                    if sp != 'outdoor':
                        f, cap = 0.0, 1.0
                    elif c['shade'] == 'not_input':
                        f, cap = (0.51 if season == 'heating' else 0.93), 1.0
                    elif dr in ('top', 'bottom'):
                        f, cap = (1.0 if dr == 'top' else 0.0), 1.0
                    else:
                        f, cap = f_simple(region, season, dr, s['depth'], s['d_h'], s['d_e'])
                    g = o.get_m(region=region, season=season)
                    h.check('gain ' + tag, h.Or(h.And(h.le(f, cap), h.eq(g, size * eta * n * f, 1e-7)), h.And(h.ge(f, cap), h.eq(g, size * eta * n * cap, 1e-7))))
                    if sp == 'outdoor':
                        ff = o.get_f(region, season)
                        h.check('factor ' + tag, h.And(h.ge(ff, 0.0), h.le(ff, 1.0)))
                    g = None
                h.check('loss ' + tag, h.eq(o.get_q(region), q, 1e-7))
                if g is not None:
                    h.check('gain ' + tag, h.eq(o.get_m(region=region, season=season), g, 1e-7))
    h.observe('size', size)


def round_trip(h):
    """Description read and written again."""
    c = h.cfg
    m = h.mod('convert.ees_house')
    a, b, x, y = h.inp('a', 0.1, 100.0), h.inp('b', 0.1, 6.0), h.inp('x', 0.01, 0.88), h.inp('y', 0.01, 0.88)
    kind = c['what']
    docs = []
    if kind == 'part':
        ls = [layer('m', h.inp('t', 0.001, 0.4), h.inp('k', 0.02, 3.0), c=h.inp('c', 1.0, 4000.0)), layer('n', 0.02, r=b, c=13.0)]
        two = [dict(name='p', part_area_ratio=x, layers=ls), dict(name='q', part_area_ratio=1.0 - x, layers=ls[:1])]
        specs = [dict(structure=s, r_srf_in=y, r_srf_ex=0.04, parts=two) for s in ('wood', 'rc')]
        specs += [dict(structure='steel', u_r_value_steel=y, r_srf_in=0.11, r_srf_ex=0.04, parts=two), spec_other(b, 'light'), spec_other(b, 'heavy')]
        for i, s in enumerate(specs):
            for k in KINDS:
                for sh in ('undefined', 'not_input', 'complex'):
                    docs.append(gp(i, k, 'outdoor', 's', a, 'main_occupant_room', s, shade(h, sh)))
        make = m.GeneralPart.make_general_parts
    elif kind == 'window':
        for g in ('single', 'double', 'triple_and_more', 'unknown'):
            for f in ('wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown'):
                w = window(len(docs), 'outdoor', 'nw', a, 'non_occupant_room', shade(h, ('simple', 'complex', 'not_input', 'not_exist', 'undefined')[len(docs) % 5]), b, x, y)
                w['spec'].update(glass_type=g, flame_type=f)
                docs.append(w)
        docs[0]['spec']['eta_d_h_value'] = None
        make = m.Window.make_windows
    elif kind == 'other':
        docs = [[door(0, 'outdoor', d, a, 'underfloor', b) for d in DIRECTIONS] + [door(1, sp, 'horizontal', a, 'undefined', b) for sp in H_DIFF if sp != 'outdoor'],
                [perim(0, sp, a, r, b) for sp in H_DIFF for r in ('underfloor', 'undefined')],
                [center(0, a, 'underfloor', [dict(name='c', thermal_resistance=x, thermal_capacity=b)])],
                [bridge(0, ('outdoor', 'open_space'), ('s', 'horizontal'), a, 'other_occupant_room', b), bridge(1, ('outdoor', 'outdoor'), ('top', 'e'), a, 'undefined', x)],
                [dict(name='f', area=a, upper_space_type='main_occupant_room', lower_space_type='underfloor', spec=dict(layers=[layer('m', x, b), layer('n', 0.02, r=y)]))],
                [dict(name='w', area=a, space_type_1='main_occupant_room', space_type_2='non_occupant_room', spec=dict(layers=[layer('m', x, b), layer('n', 0.02, r=y)]))]]
        makes = [m.Door.make_doors, m.EarthfloorPerimeter.make_earthfloor_perimeters, m.EarthfloorCenter.make_earthfloor_centers,
                 m.Heatbridge.make_heatbridges, m.InnerFloor.make_inner_floors, m.InnerWall.make_inner_walls]
    for i, (ds, mk) in enumerate(zip(docs, makes) if kind == 'other' else [(docs, make)]):
        before = copy.deepcopy(ds)
        with h.expect_ok('read %d' % i):
            out = [o.get_as_dict() for o in mk(ds=ds)]
        same(h, 'given %d' % i, ds, before)
        same(h, 'written %d' % i, out, before)
    h.observe('n', len(docs))


def shade_out(h):
    """Sunshade as handed to the load calculation."""
    c = h.cfg
    kind, opaque = c['shade'], c['opaque']
    ff, ss = h.mod('convert.factor_f'), h.mod('initializer.solar_shading')
    s = shade(h, kind)
    with h.expect_ok('export'):
        o = (ff.SunshadeOpaque.make_sunshade_opaque if opaque else ff.SunshadeTransient.make_sunshade_transient)(d=s)
        e = o.make_initializer_dict()
        ss.SolarShading.create(dict(boundary_type='external_opaque_part' if opaque else 'external_transparent_part', is_sun_striked_outside=True,
                                    direction=c['direction'], solar_shading_part=e))
    geo = {k: v for k, v in s.items() if k not in ('is_defined', 'input')}
    h.check('shaded', e['existence'] is bool(geo))
    for k in geo:
        h.check(k, k in e and h.eq(e[k], geo[k], 1e-12))
    if kind == 'simple':
        h.check('method', e['input_method'] == 'simple')
    h.observe('n', len(e))


def rooms(h):
    """Volumes and ventilation of the rooms of a house."""
    m = h.mod('convert.convert_lv4_to_h_hlc')
    mr, ot, nr, uf = h.inp('mr', 0.5, 80.0), h.inp('or', 0.5, 80.0), h.inp('nr', 0.5, 100.0), h.inp('uf', 0.5, 120.0)
    ot, nr, uf = [x if k else 0.0 for x, k in zip((ot, nr, uf), h.cfg['have'])]
    n, nv, nw = h.inp('n', 0.1, 2.0), h.inp('nv', 0.0, 20.0), h.inp('nw', 0.0, 20.0)
    total = mr + ot + nr
    with h.expect_ok('rooms'):
        rs = m.make_initial_rooms(a_a=total, a_mr=mr, a_or=ot, a_nr=nr, a_uf=uf, n=n, v_nv_mr=nv, v_nv_or=nw)
    names = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')
    area = (mr, ot, nr, uf)
    have = (True,) + tuple(h.cfg['have'])
    h.check('rooms', len(rs) == 4 and all((r is not None) is k for r, k in zip(rs, have)))
    supply = total * 2.4 * n * 1.1
    for i, r in enumerate(rs):
        if r is None:
            continue
        h.check('kind %d' % i, r['room_type'] == names[i] and r['name'] == names[i])
        h.check('volume %d' % i, h.eq(r['volume'], area[i] * (0.4 if i == 3 else 2.4), 1e-9))
        h.check('outdoor air %d' % i, h.eq(r['vent'] * (mr + ot), supply * area[i] if i < 2 else 0.0, 1e-6))
        h.check('natural ventilation %d' % i, h.eq(r['natural_vent_time'], (nv, nw, 0.0, 0.0)[i], 1e-12))
        h.check('air from rooms %d' % i, len(r['next_vent']) == ((1 + have[1]) if i == 2 else 0))
        for k, v in enumerate(r['next_vent']):
            h.check('air from room %d' % k, h.eq(v['volume'], rs[k]['vent'], 1e-9))
    h.check('all outdoor air', h.eq(tot(r['vent'] for r in rs if r), supply, 1e-6))
    if rs[2]:
        h.check('air through the house', h.eq(tot(v['volume'] for v in rs[2]['next_vent']), supply, 1e-6))
    with h.expect_ok('underfloor'):
        x = m.get_a_uf([dict(area=uf, space_type='underfloor'), dict(area=mr, space_type='main_occupant_room'), dict(area=nr, space_type='underfloor')])
    h.check('underfloor area', h.eq(x, uf + nr, 1e-9))
    h.observe('supply', supply)


FR = dict(WoodOrResin=0.72, Steel=0.8)
GL = dict([('3WgG', (.54, .34, .12)), ('3WsG', (.33, .22, .08)), ('3LgG', (.59, .37, .14)), ('3LsG', (.37, .25, .10)), ('2LgG', (.64, .38, .15)), ('2LsG', (.40, .26, .11))]
          + [(k, (.79, .38, .17)) for k in ('2FAheatreflect1', '2FAheatreflect2', '2FAheatreflect3', '2FAheatabsorb2', '2FAmulti', '2FAsingle')]
          + [(k, (.88, .38, .19)) for k in ('Theatreflect1', 'Theatreflect2', 'Theatreflect3', 'Theatabsorb2', 'Tsingle')])


def leakage(h):
    """C value from UA value."""
    m = h.mod('initializer.estimate_c_value')
    ua = h.inp('ua', 0.1, 6.0)
    for k, v in (('rc', 4.16), ('src', 4.16), ('wooden', 8.28), ('steel', 8.28)):
        with h.expect_ok(k):
            c = m.estimate_c_value(ua, m.Structure(k))
        h.check(k, h.eq(c, v * ua, 1e-12))
    h.observe('c', c)
