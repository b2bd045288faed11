"""Shared set-up for the harnesses on the per-step simulation core: buildings (concrete) with symbolic state, weather
and schedules, written in the engine's own intermediate file format."""
import numpy as np
import pandas as pd

WALL = [dict(thermal_capacity=0.854, thermal_resistance=0.0432), dict(thermal_capacity=0.0, thermal_resistance=0.09),
        dict(thermal_capacity=5.3, thermal_resistance=2.1), dict(thermal_capacity=8.64, thermal_resistance=0.075)]
HEAVY = [dict(thermal_capacity=12.0, thermal_resistance=0.05), dict(thermal_capacity=300.0, thermal_resistance=0.094),
         dict(thermal_capacity=1.2, thermal_resistance=1.5)]
PART = [dict(thermal_capacity=10.375, thermal_resistance=0.0568), dict(thermal_capacity=0.0, thermal_resistance=0.09),
        dict(thermal_capacity=10.375, thermal_resistance=0.0568)]
PART_R = list(reversed(PART))
FLOORP = [dict(thermal_capacity=17.3, thermal_resistance=0.075), dict(thermal_capacity=4.1, thermal_resistance=0.52)]
FLOORP_R = list(reversed(FLOORP))
GRND = [dict(thermal_capacity=300.0, thermal_resistance=0.3), dict(thermal_capacity=2.0, thermal_resistance=0.9)]


def bdry(i, room, area, spec, h_c=2.5, flr=0.0, sol=False, fm=0.1, k_out=1.0, k_in=None, ground=False):
    return {'id': i, 'name': 'b%d' % i, 'sub_name': '', 'is_ground': 'true' if ground else 'false',
            'connected_space_id': room, 'area': area, 'h_i': 9.0, 'h_c': h_c, 'flr': flr,
            'is_solar_absorbed': 'True' if sol else 'False', 'f_mrt_hum': fm, 'k_outside': k_out, 'k_inside': k_in,
            'spec': spec}


def ext(layers=WALL, ro=0.04):
    return {'method': 'layers', 'boundary_type': 'external_general_part', 'layers': [dict(x) for x in layers],
            'outside_heat_transfer_resistance': ro}


def inner(layers=PART, ro=0.11):
    return {'method': 'layers', 'boundary_type': 'internal', 'layers': [dict(x) for x in layers],
            'outside_heat_transfer_resistance': ro}


def ground(layers=GRND):
    return {'method': 'layers_ground', 'boundary_type': 'ground', 'layers': [dict(x) for x in layers]}


def win(u=3.2, ri=0.11, bt='external_transparent_part'):
    return {'method': 'u_value', 'boundary_type': bt, 'u_value': u, 'inside_heat_transfer_resistance': ri}


def space(i, n, volume=40.0, beta=0.0, mech=0.01, nxt=None, natural=0.05, rad_h=None, rad_c=None, frt=True,
          cool=(500.0, 3000.0, 4.0, 10.0)):
    nxt = nxt or [0.0] * n
    conv = {'installed': True, 'q_min': cool[0], 'q_max': cool[1], 'v_min': cool[2], 'v_max': cool[3]}
    return {'id': i, 'name': 'room%d' % i, 'volume': volume, 'beta': beta,
            'ventilation': {'mechanical': mech, 'next_spaces': nxt, 'natural': natural},
            'furniture': {'heat_capacity': 12600.0 * volume, 'heat_cond': 2.77 * volume,
                          'moisture_capacity': 16.8 * volume, 'moisture_cond': 0.03 * volume},
            'equipment': {
                'heating': {'radiative': {'installed': True, 'max_capacity': rad_h} if rad_h is not None
                            else {'installed': False}, 'convective': {'installed': rad_h is None}},
                'cooling': {'radiative': {'installed': True, 'max_capacity': rad_c} if rad_c is not None
                            else {'installed': False},
                            'convective': conv if rad_c is None else {'installed': False}}}}


def building(kind, **o):
    """Concrete buildings.  All names refer to the shape of the room/boundary graph."""
    bd = {'infiltration_method': 'balance_residential', 'story': o.get('story', 2), 'c_value': o.get('c_value', 2.0),
          'inside_pressure': o.get('pressure', 'negative')}
    rad_h, rad_c = o.get('rad_h'), o.get('rad_c')
    if kind == 'one':
        # one room: wall, window, half-buffered door, floor over a crawl space with partial outdoor influence
        beta = o.get('beta', 0.0)
        ss = [space(0, 1, 35.0, beta=beta, rad_h=rad_h, rad_c=rad_c)]
        bs = [bdry(0, 0, 21.5, ext(), h_c=2.5, fm=0.25),
              bdry(1, 0, 6.2, win(), h_c=2.5, fm=0.1),
              bdry(2, 0, 1.8, win(2.33, 0.11, 'external_opaque_part'), h_c=2.5, fm=0.05, k_out=0.7,
                   k_in={'id': 2, 'coef': 0.3}),
              bdry(3, 0, 14.0, ext(HEAVY, 0.15), h_c=0.7, flr=0.8, sol=True, fm=0.45, k_out=0.7,
                   k_in={'id': 3, 'coef': 0.3}),
              bdry(4, 0, 14.0, ext(HEAVY, 0.09), h_c=5.0, flr=0.2, sol=True, fm=0.15)]
    elif kind == 'steady':
        # one room bounded by massless elements only
        ss = [space(0, 1, 35.0, rad_h=rad_h, rad_c=rad_c)]
        bs = [bdry(0, 0, 21.5, win(0.6, 0.11, 'external_opaque_part'), h_c=2.5, fm=0.3),
              bdry(1, 0, 6.2, win(), h_c=2.5, fm=0.1),
              bdry(2, 0, 14.0, win(0.4, 0.15, 'external_opaque_part'), h_c=0.7, flr=1.0, sol=True, fm=0.6)]
    elif kind == 'ground':
        ss = [space(0, 1, 35.0, rad_h=rad_h)]
        bs = [bdry(0, 0, 21.5, ext(), h_c=2.5, fm=0.4),
              bdry(1, 0, 14.0, ground(), h_c=0.7, flr=1.0, sol=True, fm=0.45, k_out=o.get('k_g', 0.0), ground=True),
              bdry(2, 0, 8.0, win(), h_c=2.5, fm=0.15)]
    elif kind == 'two':
        # two rooms, partition seen from both sides, floor/ceiling pair with different areas of emission
        nxt = o.get('nxt', 0.0)
        beta = o.get('beta', 0.0)
        ss = [space(0, 2, 35.0, rad_h=rad_h, rad_c=rad_c, nxt=[0.0, nxt], beta=beta),
              space(1, 2, 22.0, nxt=[0.0, 0.0], mech=0.02, cool=(300.0, 2200.0, 3.0, 8.0))]
        bs = [bdry(0, 0, 21.5, ext(), h_c=2.5, fm=0.25),
              bdry(1, 0, 6.2, win(), h_c=2.5, fm=0.15),
              bdry(2, 0, 12.0, inner(PART), h_c=2.5, fm=0.15, k_out=0.0, k_in={'id': 5, 'coef': 1.0}),
              bdry(3, 0, 14.0, inner(FLOORP), h_c=0.7, flr=1.0, sol=True, fm=0.45, k_out=0.0,
                   k_in={'id': 6, 'coef': 1.0}),
              bdry(4, 1, 18.0, ext(HEAVY), h_c=2.5, fm=0.4, k_out=0.7, k_in={'id': 4, 'coef': 0.3}),
              bdry(5, 1, 12.0, inner(PART_R), h_c=2.5, fm=0.2, k_out=0.0, k_in={'id': 2, 'coef': 1.0}),
              bdry(6, 1, 14.0, inner(FLOORP_R), h_c=5.0, fm=0.25, sol=True, k_out=0.0,
                   k_in={'id': 3, 'coef': 1.0}),
              bdry(7, 1, 3.0, win(4.65), h_c=2.5, fm=0.15)]
    elif kind == 'three':
        ss = [space(0, 3, 60.0, rad_h=rad_h, nxt=[0.0, 0.0, 0.0]), space(1, 3, 45.0, mech=0.005),
              space(2, 3, 30.0, mech=0.0, natural=0.02, cool=(300.0, 2200.0, 3.0, 8.0))]
        bs = [bdry(0, 0, 30.0, ext(), h_c=2.5, fm=0.25),
              bdry(1, 1, 6.0, win(), h_c=2.5, fm=0.3),
              bdry(2, 0, 12.0, inner(PART), h_c=2.5, fm=0.15, k_out=0.0, k_in={'id': 4, 'coef': 1.0}),
              bdry(3, 0, 24.0, ext(HEAVY), h_c=0.7, flr=1.0, sol=True, fm=0.6, k_out=0.7, k_in={'id': 3, 'coef': 0.3}),
              bdry(4, 1, 12.0, inner(PART_R), h_c=2.5, fm=0.25, k_out=0.0, k_in={'id': 2, 'coef': 1.0}),
              bdry(5, 1, 18.0, ext(), h_c=0.7, sol=True, fm=0.45),
              bdry(6, 2, 10.0, ext(), h_c=2.5, fm=0.55),
              bdry(7, 2, 9.0, inner(PART), h_c=2.5, fm=0.25, k_out=0.0, k_in={'id': 8, 'coef': o.get('k_p2', 1.0)}),
              bdry(8, 1, 9.0, inner(PART_R), h_c=2.5, fm=0.0, k_out=0.0, k_in={'id': 7, 'coef': 1.0}),
              bdry(9, 2, 12.0, win(2.0, 0.15, 'external_opaque_part'), h_c=0.7, sol=True, fm=0.2)]
        ss[0]['ventilation']['next_spaces'] = [0.0, o.get('nxt', 0.0), 0.0]
        ss[2]['ventilation']['next_spaces'] = [o.get('nxt', 0.0) * 0.5, 0.0, 0.0]
    elif kind == 'mixed':
        # three rooms, each with other equipment and convective share of its panel; partitions that are partly outdoors;
        # ground floor in the middle of the list; boundaries of the rooms interleaved
        kp = o.get('k_part', 0.6)
        e = o.get('eq', [dict(rad_h=500.0, beta=0.3), dict(rad_c=350.0, beta=0.1), dict(rad_h=300.0, rad_c=250.0, beta=0.45)])
        nx = o.get('nxt', 0.0)
        ss = [space(0, 3, 60.0, nxt=[0.0, nx, 0.0], **e[0]), space(1, 3, 45.0, mech=0.005, natural=0.08, **e[1]),
              space(2, 3, 30.0, mech=0.02, natural=0.02, cool=(300.0, 2200.0, 3.0, 8.0), nxt=[nx * 0.5, nx, 0.0], **e[2])]
        bs = [bdry(0, 1, 16.0, ext(), h_c=2.5, fm=0.3),
              bdry(1, 2, 9.0, inner(PART_R), h_c=2.5, fm=0.2, k_out=1.0 - kp, k_in={'id': 6, 'coef': kp}),
              bdry(2, 0, 24.0, ext(HEAVY), h_c=0.7, flr=0.7, sol=True, fm=0.55, k_out=0.7, k_in={'id': 2, 'coef': 0.3}),
              bdry(3, 1, 18.0, ground(), h_c=0.7, flr=1.0, sol=True, fm=0.45, k_out=o.get('k_g', 1.0), ground=True),
              bdry(4, 0, 12.0, inner(PART), h_c=2.5, flr=0.3, fm=0.15, k_out=0.0, k_in={'id': 8, 'coef': o.get('k_p2', 1.0)}),
              bdry(5, 2, 7.0, win(), h_c=2.5, fm=0.25),
              bdry(6, 0, 9.0, inner(PART), h_c=5.0, fm=0.1, k_out=1.0 - kp, k_in={'id': 1, 'coef': kp}),
              bdry(7, 2, 12.0, win(2.0, 0.15, 'external_opaque_part'), h_c=0.7, flr=0.8, sol=True, fm=0.4),
              bdry(8, 1, 12.0, inner(PART_R), h_c=2.5, fm=0.25, k_out=0.0, k_in={'id': 4, 'coef': o.get('k_p2', 1.0)}),
              bdry(9, 0, 20.0, ext(), h_c=2.5, fm=0.2),
              bdry(10, 2, 10.0, ext(HEAVY, 0.11), h_c=5.0, flr=0.2, fm=0.15)]
    elif kind == 'ground2':
        # two rooms on two different ground constructions, listed between other elements
        ss = [space(0, 2, 35.0, rad_h=rad_h), space(1, 2, 22.0, mech=0.02)]
        bs = [bdry(0, 1, 8.0, win(), h_c=2.5, fm=0.45),
              bdry(1, 0, 14.0, ground(), h_c=0.7, flr=1.0, sol=True, fm=0.45, k_out=o.get('k_g', 0.0), ground=True),
              bdry(2, 0, 21.5, ext(), h_c=2.5, fm=0.55),
              bdry(3, 1, 9.0, ground([dict(thermal_capacity=90.0, thermal_resistance=0.06), dict(thermal_capacity=0.0, thermal_resistance=1.7)]),
                   h_c=0.7, sol=True, fm=0.25, k_out=o.get('k_g', 0.0), ground=True),
              bdry(4, 1, 17.0, ext(HEAVY), h_c=2.5, fm=0.3)]
    else:
        raise ValueError(kind)
    if o.get('no_dehum'):
        for s in ss:
            k = s['equipment']['cooling']['convective']
            for q in ('q_min', 'q_max', 'v_min', 'v_max'):
                if q in k:
                    k[q] = 0.0
    if 'mech' in o:
        for s in ss:
            s['ventilation']['mechanical'] = o['mech']
    return {'building': bd, 'spaces': ss, 'boundaries': bs}


BOUNDS = dict(theta_o=(-20.0, 40.0), x_o=(0.0005, 0.025), q_gen=(0.0, 2000.0), x_gen=(0.0, 1.0e-3), lv=(0.0, 0.15),
              n_hum=(0.0, 5.0), ac=(0.0, 1.0), q_sol=(0.0, 3000.0), tos=(-30.0, 80.0), theta_r=(-10.0, 45.0),
              x_r=(0.0005, 0.030), q_srf=(-400.0, 400.0), term=(-30.0, 30.0))


def setup(h, rd, n=1, sym=(), const=None, delta_t=900.0, twin=None, perm=None):
    """Write the intermediate files and run the real pre-calculation.  `sym`: names of the inputs that are symbolic
    (others take a constant from `const` or a default)."""
    const = const or {}
    ns, nb = len(rd['spaces']), len(rd['boundaries'])
    dflt = dict(theta_o=7.0, x_o=0.006, q_gen=150.0, x_gen=2.0e-5, lv=0.0, n_hum=1.5, ac=1.0, q_sol=300.0, tos=12.0)

    def v(name, *idx):
        if name in sym or '%s:%d' % (name, idx[-1]) in sym:
            return h.inp(name + '_' + '_'.join(map(str, idx)), *BOUNDS[name])
        c = const.get(name, dflt[name])
        return c[idx[-1]] if isinstance(c, (list, tuple)) else c

    pr = {'r': perm[0] if perm else range(ns), 'b': perm[1] if perm else range(nb)}
    memo = {}

    def rows(name, k):
        if name not in memo:
            memo[name] = rows0(name, k)
        return [list(r) for r in memo[name]]

    def rows0(name, k):
        ix = list(pr['b' if name == 'tos' else 'r'])
        if twin is not None:        # second row: same as the first except for the values in `twin`
            r0 = [v(name, 0, i) for i in ix]
            return [r0, [twin[name]] * k if name in twin else list(r0)]
        return [[v(name, t, i) for i in ix] for t in range(n)]
    h.file('mid_data_house.json', rd)
    h.file('mid_data_local_vent.csv', rows('lv', ns))
    h.file('mid_data_heat_generation.csv', rows('q_gen', ns))
    h.file('mid_data_moisture_generation.csv', rows('x_gen', ns))
    h.file('mid_data_occupants.csv', rows('n_hum', ns))
    h.file('mid_data_ac_demand.csv', rows('ac', ns))
    h.file('mid_data_q_trs_sol.csv', rows('q_sol', ns))
    h.file('mid_data_theta_o_sol.csv', rows('tos', nb))
    to, xo = [[(v(nm, 0) if twin is not None else v(nm, t)) for t in range(n)] for nm in ('theta_o', 'x_o')]
    df = pd.DataFrame({'temperature': to, 'absolute humidity': xo})
    h.file('weather.csv', df)
    h.sched = dict(lv=rows('lv', ns), q_gen=rows('q_gen', ns), x_gen=rows('x_gen', ns), n_hum=rows('n_hum', ns),
                   ac=rows('ac', ns), q_sol=rows('q_sol', ns), tos=rows('tos', nb),
                   theta_o=to, x_o=xo)
    pc = h.mod('core.pre_calc_parameters')
    with h.expect_ok('pre-calculation completes'):
        pp, ppg = pc.make_pre_calc_parameters(delta_t=delta_t, data_directory=h.tmp)
    return pp, ppg


def state(h, pp, modes, sym=(), const=None, perm=None):
    """Arbitrary state at the start of a step."""
    const = const or {}
    ns, nb = pp.n_spaces, pp.n_bdries
    OM = h.mod('core.operation_mode').OperationMode
    cond = h.mod('core.conditions')
    dflt = dict(theta_r=18.0, mrt=18.0, x_r=0.006, term=0.5, q_srf=3.0, theta_frt=18.0, x_frt=0.006, theta_ei=18.0)
    bnd = dict(theta_r='theta_r', mrt='theta_r', x_r='x_r', term='term', q_srf='q_srf', theta_frt='theta_r',
               x_frt='x_r', theta_ei='theta_r')

    def v(name, *idx):
        if name in sym or '%s:%d' % (name, idx[-1]) in sym:
            return h.inp('s_' + name + '_' + '_'.join(map(str, idx)), *BOUNDS[bnd[name]])
        c = const.get(name, dflt[name])
        return c[idx[-1]] if isinstance(c, (list, tuple)) else c

    ir = perm[0] if perm else range(ns)
    ib = perm[1] if perm else range(nb)

    def col(name, k):
        return h.arr([[v(name, i)] for i in (ib if name in ('q_srf', 'theta_ei') else ir)])

    # only the exponential terms that exist (non-zero common ratio) are free
    r = np.array(pp.r_js_ms, dtype=float)

    def terms(tag):
        m = [[(h.inp('s_%s_%d_%d' % (tag, jj, k), *BOUNDS['term']) if 'term' in sym else const.get('term', 0.5))
              if r[j, k] != 0.0 else 0.0 for k in range(12)] for j, jj in enumerate(ib)]
        return h.arr(m)
    return cond.Conditions(
        operation_mode_is_n=np.array([[getattr(OM, modes[i])] for i in ir]),
        theta_r_is_n=col('theta_r', ns), theta_mrt_hum_is_n=col('mrt', ns), x_r_is_n=col('x_r', ns),
        theta_dsh_srf_a_js_ms_n=terms('a'), theta_dsh_srf_t_js_ms_n=terms('t'), q_srf_js_n=col('q_srf', nb),
        theta_frt_is_n=col('theta_frt', ns), x_frt_is_n=col('x_frt', ns), theta_ei_js_n=col('theta_ei', nb))


def step(h, pp, c, n=0, n_steps=1, delta_t=900.0):
    """One real step; returns (new state, logger)."""
    log = h.mod('core.log')
    seq = h.mod('core.sequence')
    lg = log.Logger(n_spaces=pp.n_spaces, n_boundaries=pp.n_bdries, n_step_main=n_steps)
    lg.pre_logging(pp)
    with h.expect_ok('a step completes'):
        c2 = seq.run_tick(n=n, delta_t=delta_t, ss=pp, c_n=c, logger=lg, run_up=False)
    return c2, lg


def permuted(rd, perm):
    """The same building with rooms and boundaries listed in another order (position -> original index)."""
    import copy
    rp, bp = perm
    rpos = {o: k for k, o in enumerate(rp)}
    bpos = {o: k for k, o in enumerate(bp)}
    out = copy.deepcopy(rd)
    out['spaces'] = [copy.deepcopy(rd['spaces'][o]) for o in rp]
    for k, s in enumerate(out['spaces']):
        s['id'] = k
        s['ventilation']['next_spaces'] = [rd['spaces'][rp[k]]['ventilation']['next_spaces'][o] for o in rp]
    out['boundaries'] = [copy.deepcopy(rd['boundaries'][o]) for o in bp]
    for k, b in enumerate(out['boundaries']):
        b['id'] = k
        b['connected_space_id'] = rpos[b['connected_space_id']]
        if b['k_inside'] is not None:
            b['k_inside']['id'] = bpos[b['k_inside']['id']]
    return out
