D = {}


def d(i, prop, edits, needs, breaks, demo):
    D[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


d('core-convective-share', 'P01',
  [('core/pre_calc_parameters.py', '''+ np.diag(beta_is.flatten())''', '''+ np.average(beta_is) * np.identity(n_spaces)''')],
  'two rooms with different convective shares of their radiant heating',
  'the air of each room receives the mean convective share instead of its own', '''
import numpy as np
import house as H
rd = H.two(dict(beta=0.6, rad_h=4000.0), dict(beta=0.0))
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=0.0, ac=[[1.0, 0.0]]), ['HEATING', 'STOP_CLOSE'])
i, s = 0, rd['spaces'][0]
th, th0 = c2.theta_r_is_n[i, 0], c.theta_r_is_n[i, 0]
conv = sum(b['area'] * b['h_c'] * (lg.theta_s[b['id'], 0] - th) for b in rd['boundaries'] if b['connected_space_id'] == 0)
v = 0.01 + lg.v_reak_is_ns[i, 0] + lg.v_ntrl_is_ns[i, 0]
res = s['volume'] * 1005 * 1.2 / 900 * (th - th0) - conv - 1005 * 1.2 * v * (0.0 - th) - 100.0 - lg.q_hum[i, 0] \\
    - s['furniture']['heat_cond'] * (c2.theta_frt_is_n[i, 0] - th) - lg.l_cs[i, 0] - 0.6 * lg.l_rs[i, 0]
assert lg.l_rs[i, 0] > 100.0
assert abs(res) < 1e-3, 'heat balance of the air is open by %g W' % res
''')

d('core-humidity-capped', 'P02',
  [('core/sequence.py', '''    # 除湿量
    l_cl_i_n =''', '''    # 湿り空気の適用範囲に収める
    x_r_is_npls = np.minimum(x_r_is_npls, 0.035)

    # 除湿量
    l_cl_i_n ='''),
   ],
  'enough moisture for the room air to pass 35 g/kg', 'moisture above 35 g/kg disappears without a latent load', '''
import house as H
rd = H.one(c_value=0.0)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=0.0, x_gen=9.0e-2, x_o=0.003, ac=0.0), ['STOP_CLOSE'], x_r_is_n=0.030)
x, x0, xf = c2.x_r_is_n[0, 0], 0.030, c2.x_frt_is_n[0, 0]
s = rd['spaces'][0]
res = 1.2 * 35.0 / 900.0 * (x - x0) - 1.2 * 0.01 * (0.003 - x) - 9.0e-2 - lg.x_hum[0, 0] \\
    - s['furniture']['moisture_cond'] * (xf - x) - lg.l_cl[0, 0] / 2501000.0
assert abs(res) < 1e-7, 'moisture balance of the air is open by %g kg/s' % res
''')

d('core-equivalent-share', 'P05',
  [('core/sequence.py', '''np.dot(ss.flr_js_is, (1.0 - ss.beta_is) * l_hs_is_n) / ss.a_srf_js''',
    '''np.dot(ss.flr_js_is, l_hs_is_n) / ss.a_srf_js''')],
  'radiant heating with a convective share above zero',
  'surfaces are given the whole radiant output although part of it already went to the air', '''
import house as H
rd = H.one(beta=0.5, rad_h=5000.0)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=0.0, q_sol=0.0), ['HEATING'])
b = rd['boundaries'][2]
fm = lg.theta_s[:, 0] @ pp.f_mrt_is_js[0]
q = b['h_c'] * (c2.theta_r_is_n[0, 0] - lg.theta_s[2, 0]) + pp.h_r_js[2, 0] * (fm - lg.theta_s[2, 0]) \\
    + 0.5 * lg.l_rs[0, 0] / b['area']
assert lg.l_rs[0, 0] > 50.0
assert abs(q - lg.qiall_s[2, 0]) < 1e-6, (q, lg.qiall_s[2, 0])
''')

d('core-partial-rear', 'P06',
  [('core/pre_calc_parameters.py', '''k_ei_js[k_ei_id_j] = k_ei_coef_j''',
    '''k_ei_js[k_ei_id_j] = k_ei_coef_j if k_eo_js[k_ei_id_j, 0] > 0.0 else 1.0''')],
  'an element between rooms whose rear influence is stated as less than one',
  'the stated share of the element on the other side is replaced by one', '''
import house as H
rd = H.two(k=0.6)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1), ['STOP_CLOSE', 'STOP_CLOSE'], theta_ei_js_n=[10., 11., 12., 13., 24., 15.])
assert abs(lg.theta_rear[1, 0] - 0.6 * 24.0) < 1e-9, lg.theta_rear[1, 0]
''')

d('core-deadband', 'P07',
  [('core/next_condition.py', '''(theta_natural_is_n < theta_lower_target_is_n)''',
    '''(theta_natural_is_n < theta_lower_target_is_n - 2.0e-3)''')],
  'a step whose free-running operative temperature is within 2 mK below the target',
  'the room is left short of the target without a load', '''
import house as H
import numpy as np
from heat_load_calc.core import next_condition as nc
from heat_load_calc.core.operation_mode import OperationMode
z = np.zeros((1, 1))
t, lc, lr = nc.calc_next_temp_and_load(
    is_radiative_heating_is=np.array([[False]]), is_radiative_cooling_is=np.array([[False]]),
    brc_ot_is_n=np.array([[1999.9]]), brm_ot_is_is_n=np.array([[100.0]]), brl_ot_is_is_n=np.array([[0.5]]),
    theta_lower_target_is_n=np.array([[20.0]]), theta_upper_target_is_n=np.array([[26.0]]), lr_h_max_cap_is=z, lr_cs_max_cap_is=z,
    operation_mode_is_n=np.array([[OperationMode.HEATING]]), ac_demand_is_n=np.array([[1.0]]))
assert abs(t[0, 0] - 20.0) < 1e-6, t
''')

d('core-cooling-capacity', 'P08',
  [('core/next_condition.py', '''lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]''', '''lr_set[under_lr] = -np.maximum(lr_cs_max_cap_is, lr_h_max_cap_is)[under_lr]''')],
  'a room with both radiant heating and radiant cooling, cooling at full output',
  'the radiant cooling load exceeds the installed cooling capacity', '''
import house as H
rd = H.one(rad_h=2000.0, rad_c=300.0, c_value=0.0)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=36.0, q_gen=1500.0), ['COOLING'], theta_r_is_n=32.0, theta_mrt_hum_is_n=32.0,
                       theta_frt_is_n=32.0, theta_ei_js_n=32.0, theta_dsh_srf_t_js_ms_n=3.5)
assert lg.l_rs[0, 0] < -1.0
assert lg.l_rs[0, 0] >= -300.0 - 1e-6, lg.l_rs
''')

d('core-mode-from-cooling', 'P09',
  [('core/ot_target_pmv.py', '''            if pmv_light_i_n >= -0.7:
                return OperationMode.COOLING
            elif pmv_heavy_i_n <= -0.7:
                return OperationMode.HEATING
''', '''            if pmv_light_i_n >= -0.7:
                return OperationMode.COOLING
            elif pmv_heavy_i_n < -1.0:
                return OperationMode.HEATING
''')],
  'a room still in the cooling mode that has become cold (winter-clothing PMV between -1.0 and -0.7)',
  'heating does not start when the winter-clothing sensation is at most -0.7', '''
import house as H
from heat_load_calc.core.operation_mode import OperationMode as OM
rd = H.one()
for k in range(120, 200):
    t = k / 10.0
    def go(prev):
        pp, c, c2, lg = H.step(rd, H.rows(rd, 1), [prev], theta_r_is_n=t, theta_mrt_hum_is_n=t)
        return OM(int(c2.operation_mode_is_n[0, 0])).name
    m = go('COOLING')
    # air speed differs (0.2 while cooling): compare with a room coming from heating, same air speed, on the cold side
    if m == 'STOP_CLOSE':
        from heat_load_calc.core import ot_target_pmv as o
        import numpy as np
        from heat_load_calc.external import psychrometrics as psy
        a = np.array([[t]])
        x = psy.get_x(psy.get_p_vs(theta=20.0) * 0.4)
        pv = psy.get_p_v_r_is_n(x_r_is_n=np.array([[x]]))
        p = o._get_h_hum_and_pmv(p_a_is_n=pv, theta_r_is_n=a, theta_mrt_is_n=a, clo_is_n=1.1, v_hum_is_n=np.array([[0.2]]), method='constant')[0, 0]
        assert p > -0.7, (t, p, m)
''')

d('core-radiant-cooling-air', 'P10',
  [('core/ot_target_pmv.py', '''v_hum_is_n[(operation_mode_is_n == OperationMode.COOLING) & np.logical_not(is_radiative_cooling_is)] = 0.2''',
    '''v_hum_is_n[(operation_mode_is_n == OperationMode.COOLING) & np.logical_not(is_radiative_heating_is & is_radiative_cooling_is)] = 0.2''')],
  'a room with radiant cooling but convective heating', 'air speed 0.2 m/s is stated and used for a room cooled by radiation', '''
import json
import house as H
rd = H.one(rad_c=3000.0, c_value=0.0)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=36.0), ['COOLING'], theta_r_is_n=32.0, theta_mrt_hum_is_n=32.0)
assert json.loads(lg.space_remarks[0, 0])['v_hum m/s'] == 0.0, lg.space_remarks
''')


d('core-positive-pressure', 'P13',
  [('core/infiltration.py', '''    delta_theta = abs(theta_average_r_n - theta_o_n)
''', '''    delta_theta = abs(theta_average_r_n - theta_o_n)
    if inside_pressure == 'positive':
        # 正圧の場合は外気の方が暖かいときの流入はない
        delta_theta = max(theta_average_r_n - theta_o_n, 0.0)
''')],
  'a building at positive pressure on a day warmer than the rooms', 'infiltration vanishes when it is warmer outside', '''
import house as H
rd = H.one(pressure='positive', c_value=20.0)
pp, c, c2, lg = H.step(rd, H.rows(rd, 1, theta_o=35.0), ['STOP_CLOSE'], theta_r_is_n=26.0)
want = max(0.020 * 20.0 * 9.0 ** 0.5 - 0.14, 0.0) * 35.0 / 3600.0
assert abs(lg.v_reak_is_ns[0, 0] - want) < 1e-9, (lg.v_reak_is_ns[0, 0], want)
''')

d('core-ground-history-order', 'P15',
  [('core/conditions.py', '''    c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
''', '''    g0 = int(np.argmax(is_ground))
    c.theta_dsh_srf_a_js_ms_n[g0:g0 + len(gc.q_srf_js_n), :] = gc.theta_dsh_srf_a_js_ms_n
''')],
  'two different ground elements (or one listed before and one after other elements)',
  'the run-up history of ground elements is handed to the wrong element, depending on the listing order', '''
import numpy as np
import copy
import house as H
def rd(order):
    g2 = [dict(thermal_capacity=20.0, thermal_resistance=2.0)]
    bs = [H.bdry(0, 0, 20.0, H.uval(2.0), fm=0.4), H.bdry(0, 0, 10.0, H.layers('ground', H.GRND), h_c=0.7, sol=True, flr=0.5, fm=0.3, ground=True),
          H.bdry(0, 0, 6.0, H.layers('ground', g2), h_c=0.7, sol=True, flr=0.5, fm=0.3, ground=True)]
    bs = [bs[k] for k in order]
    for k, b in enumerate(bs):
        b['id'] = k
    return H.house([H.space(0, 1)], bs)
out = []
for o in ([0, 1, 2], [1, 0, 2]):
    r = rd(o)
    th = [5.0 + 8.0 * np.sin(k / 15.0) for k in range(192)]
    ds, dd = H.calc(r, H.rows(r, 192, theta_o=th, ac=0.0), n_d_main=1, n_d_run_up=2, n_d_run_up_build=0)
    out.append(dd['rm0_t_r'].values)
assert np.abs(out[0] - out[1]).max() < 1e-9, np.abs(out[0] - out[1]).max()
''')

d('core-thin-layer', 'P16',
  [('initializer/response_factor.py', '''            if abs(C_k) < 0.001:''', '''            if abs(C_k) < 500.0:''')],
  'a layer with little heat capacity for its resistance (e.g. 0.9 kJ/m2K and 2 m2K/W insulation)',
  'such layers are treated as having no heat capacity, so the fit is not to the exact solution', '''
import numpy as np, math
from heat_load_calc.initializer import response_factor as rf
cs, rs, ro = [0.45, 8.0], [4.0, 0.1], 0.04
f = rf.ResponseFactorFactory.create(dict(method='layers', boundary_type='external_general_part', outside_heat_transfer_resistance=ro,
    layers=[dict(thermal_capacity=c, thermal_resistance=r) for c, r in zip(cs, rs)])).get_response_factors()
al = rf.get_alpha_m(False)
s = rf.get_laps(al)
ga = []
for p in s:
    m = np.eye(2)
    for c, r in zip(cs + [0.0], rs + [ro]):
        if c == 0.0:
            k = np.array([[1.0, r], [0.0, 1.0]])
        else:
            g = math.sqrt(r * c * 1000.0 * p)
            k = np.array([[math.cosh(g), r / g * math.sinh(g)], [g / r * math.sinh(g), math.cosh(g)]])
        m = m @ k
    ga.append(m[0, 1] / m[1, 1] - sum(rs) - ro)
A = np.array([[p / (p + a) for a in al] for p in s])
x = np.linalg.lstsq(A, np.array(ga), rcond=None)[0]
t = np.array(al) * 900
want = -x * (1 - np.exp(-t)) ** 2 / t
got = np.array(f.rfa1)[:len(want)]
assert np.abs(got - want).max() < 1e-4, np.abs(got - want).max()
''')

d('core-digest-radiant', 'P17',
  [('core/log.py', '''ds[name + '_l_s_r'] = dd[name + '_l_s_r'].resample('H').sum().round(0)''',
    '''ds[name + '_l_s_r'] = dd[name + '_l_s_r'].resample('H').sum().round(0).clip(lower=0.0)''')],
  'a room cooled by a radiant system', 'the hourly digest drops the radiant cooling load', '''
import numpy as np
import house as H
rd = H.one(rad_c=3000.0, c_value=0.0)
ds, dd = H.calc(rd, H.rows(rd, 96, theta_o=36.0), n_d_main=1, n_d_run_up=1, n_d_run_up_build=1)
want = dd['rm0_l_s_r'].values.reshape(-1, 4).sum(axis=1)
assert want.min() < -10
assert np.abs(ds['rm0_l_s_r'].values - want).max() <= 0.5 + 1e-6, (ds['rm0_l_s_r'].values[:4], want[:4])
''')

d('core-ground-runup-short', 'P18',
  [('core/core.py', '''for n in range(-n_step_run_up, -n_step_run_up_build):''',
    '''for n in range(-n_step_run_up, -max(n_step_run_up_build, 96)):''')],
  'a run-up whose whole-building part is shorter than a day', 'the last day of the ground-only run-up is left out', '''
import numpy as np
import house as H
from heat_load_calc.core import sequence_ground
g = [H.bdry(0, 0, 20.0, H.uval(2.0), fm=0.5), H.bdry(1, 0, 10.0, H.layers('ground', H.GRND), h_c=0.7, sol=True, flr=1.0, fm=0.5, ground=True)]
rd = H.house([H.space(0, 1)], g)
seen = []
f = sequence_ground.run_tick
def spy(gc_n, ss, n):
    seen.append(n)
    return f(gc_n=gc_n, ss=ss, n=n)
sequence_ground.run_tick = spy
th = [5.0 + 8.0 * np.sin(k / 15.0) for k in range(192)]
H.calc(rd, H.rows(rd, 192, theta_o=th), n_d_main=1, n_d_run_up=2, n_d_run_up_build=0)
assert seen == list(range(-192, 0)), (seen[:1], seen[-1:])
''')
