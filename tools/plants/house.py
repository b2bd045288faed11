"""Helper of the demonstrations: small buildings in the engine's intermediate format, run with the real code."""
import csv
import json
import os
import sys
import tempfile

import numpy as np
import pandas as pd

sys.path.insert(0, os.getcwd())
WALL = [dict(thermal_capacity=0.854, thermal_resistance=0.0432), dict(thermal_capacity=0.0, thermal_resistance=0.09),
        dict(thermal_capacity=5.3, thermal_resistance=2.1), dict(thermal_capacity=8.64, thermal_resistance=0.075)]
GRND = [dict(thermal_capacity=300.0, thermal_resistance=0.3), dict(thermal_capacity=2.0, thermal_resistance=0.9)]
PART = [dict(thermal_capacity=10.0, thermal_resistance=0.06), dict(thermal_capacity=0.0, thermal_resistance=0.09)]


def layers(bt, ls, ro=0.04):
    d = {'method': 'layers', 'boundary_type': bt, 'layers': [dict(x) for x in ls]}
    if bt == 'ground':
        d['method'] = 'layers_ground'
    else:
        d['outside_heat_transfer_resistance'] = ro
    return d


def uval(u, ri=0.11, bt='external_transparent_part'):
    return {'method': 'u_value', 'boundary_type': bt, 'u_value': u, 'inside_heat_transfer_resistance': ri}


def bdry(i, room, area, spec, h_c=2.5, flr=0.0, sol=False, fm=0.1, k_out=1.0, k_in=None, ground=False):
    return {'id': i, 'name': 'b%d' % i, 'sub_name': '', 'is_ground': 'true' if ground else 'false',
            'connected_space_id': room, 'area': area, 'h_i': 9.0, 'h_c': h_c, 'flr': flr,
            'is_solar_absorbed': 'True' if sol else 'False', 'f_mrt_hum': fm, 'k_outside': k_out, 'k_inside': k_in,
            'spec': spec}


def space(i, n, volume=40.0, beta=0.0, mech=0.01, nxt=None, natural=0.05, rad_h=None, rad_c=None,
          cool=(500.0, 3000.0, 4.0, 10.0)):
    conv = {'installed': True, 'q_min': cool[0], 'q_max': cool[1], 'v_min': cool[2], 'v_max': cool[3]}
    eq = {'heating': {'radiative': {'installed': False}, 'convective': {'installed': rad_h is None}},
          'cooling': {'radiative': {'installed': False}, 'convective': conv if rad_c is None else {'installed': False}}}
    if rad_h is not None:
        eq['heating']['radiative'] = {'installed': True, 'max_capacity': rad_h}
    if rad_c is not None:
        eq['cooling']['radiative'] = {'installed': True, 'max_capacity': rad_c}
    return {'id': i, 'name': 'room%d' % i, 'volume': volume, 'beta': beta,
            'ventilation': {'mechanical': mech, 'next_spaces': nxt or [0.0] * n, 'natural': natural},
            'furniture': {'heat_capacity': 12600.0 * volume, 'heat_cond': 2.77 * volume,
                          'moisture_capacity': 16.8 * volume, 'moisture_cond': 0.03 * volume}, 'equipment': eq}


def house(rooms, bdries, story=2, c_value=2.0, pressure='negative'):
    return {'building': {'infiltration_method': 'balance_residential', 'story': story, 'c_value': c_value,
                         'inside_pressure': pressure}, 'spaces': rooms, 'boundaries': bdries}


def one(**o):
    b = {k: o.pop(k) for k in ('story', 'c_value', 'pressure') if k in o}
    return house([space(0, 1, 35.0, **o)],
                 [bdry(0, 0, 21.5, layers('external_general_part', WALL), fm=0.35), bdry(1, 0, 6.0, uval(3.2)),
                  bdry(2, 0, 14.0, layers('external_general_part', WALL, 0.15), h_c=0.7, flr=1.0, sol=True, fm=0.45),
                  bdry(3, 0, 14.0, layers('external_general_part', WALL, 0.09), h_c=5.0, fm=0.1)], **b)


def two(o0=None, o1=None, k=1.0, **b):
    return house([space(0, 2, 35.0, **(o0 or {})), space(1, 2, 80.0, **(o1 or {}))],
                 [bdry(0, 0, 21.5, layers('external_general_part', WALL), fm=0.45),
                  bdry(1, 0, 12.0, layers('internal', PART, 0.11), k_out=0.0, k_in={'id': 4, 'coef': k}),
                  bdry(2, 0, 14.0, layers('external_general_part', WALL, 0.15), h_c=0.7, flr=1.0, sol=True, fm=0.45),
                  bdry(3, 1, 18.0, layers('external_general_part', WALL), fm=0.35),
                  bdry(4, 1, 12.0, layers('internal', PART[::-1], 0.11), fm=0.2, k_out=0.0, k_in={'id': 1, 'coef': k}),
                  bdry(5, 1, 30.0, layers('external_general_part', WALL, 0.15), h_c=0.7, flr=1.0, sol=True, fm=0.45)], **b)


def rows(rd, n, **o):
    """n rows of inputs; keyword values are scalars or per-row lists (per room: a list of lists)."""
    ns, nb = len(rd['spaces']), len(rd['boundaries'])
    d = dict(theta_o=5.0, x_o=0.005, lv=0.0, q_gen=100.0, x_gen=1.0e-5, n_hum=1.0, ac=1.0, q_sol=200.0, tos=None)
    d.update(o)

    def ex(v, w):
        v = v if isinstance(v, (list, tuple, np.ndarray)) else [v] * n
        return [list(r) if isinstance(r, (list, tuple, np.ndarray)) else [r] * w for r in v]
    out = {k: ex(d[k], ns) for k in ('lv', 'q_gen', 'x_gen', 'n_hum', 'ac', 'q_sol')}
    out['tos'] = ex(d['tos'] if d['tos'] is not None else d['theta_o'], nb)
    for k in ('theta_o', 'x_o'):
        out[k] = list(d[k]) if isinstance(d[k], (list, tuple, np.ndarray)) else [d[k]] * n
    return out


def write(tmp, rd, d):
    json.dump(rd, open(tmp + '/mid_data_house.json', 'w'))
    for nm, f in (('lv', 'local_vent'), ('q_gen', 'heat_generation'), ('x_gen', 'moisture_generation'),
                  ('n_hum', 'occupants'), ('ac', 'ac_demand'), ('q_sol', 'q_trs_sol'), ('tos', 'theta_o_sol')):
        with open(tmp + '/mid_data_%s.csv' % f, 'w') as g:
            csv.writer(g, lineterminator='\n').writerows(d[nm])
    pd.DataFrame({'temperature': d['theta_o'], 'absolute humidity': d['x_o']}).to_csv(tmp + '/weather.csv')


class Quiet:
    def __enter__(self):
        self.o, sys.stdout = sys.stdout, open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout = self.o


def pre(rd, d):
    from heat_load_calc.core import pre_calc_parameters
    with tempfile.TemporaryDirectory() as t:
        write(t, rd, d)
        return pre_calc_parameters.make_pre_calc_parameters(delta_t=900.0, data_directory=t)


def step(rd, d, modes=None, n=0, **st):
    """One step from a given state -> (parameters, state before, state after, log)."""
    from heat_load_calc.core import log, sequence, conditions
    from heat_load_calc.core.operation_mode import OperationMode
    pp, _ = pre(rd, d)
    c = conditions.initialize_conditions(n_spaces=pp.n_spaces, n_bdries=pp.n_bdries)
    if modes:
        c.operation_mode_is_n = np.array([[getattr(OperationMode, m)] for m in modes])
    for k, v in st.items():
        a = np.array(getattr(c, k), dtype=float)
        a[...] = np.array(v, dtype=float).reshape(-1, 1) if isinstance(v, (list, tuple)) else v
        setattr(c, k, a)
    lg = log.Logger(n_spaces=pp.n_spaces, n_boundaries=pp.n_bdries, n_step_main=len(d['theta_o']))
    lg.pre_logging(pp)
    c2 = sequence.run_tick(n=n, delta_t=900.0, ss=pp, c_n=c, logger=lg, run_up=False)
    return pp, c, c2, lg


def calc(rd, d, **kw):
    from heat_load_calc.core import core
    with tempfile.TemporaryDirectory() as t, Quiet():
        write(t, rd, d)
        return core.calc(input_data_dir=t, output_data_dir=t, **kw)
