D = {}


def d(i, prop, edits, needs, breaks, demo):
    D[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


d('weather-year-seam', 'P19',
  [('weather/weather_data.py', '''        data1 = np.roll(weather_data, 1)     # 0時=24時のため、1回分前のデータを参照
        data2 = weather_data
''', '''        # 0時=24時のため、1回分前のデータを参照（1月1日0時は1時の値で始める）
        data1 = np.append(weather_data[0], weather_data[:-1])
        data2 = weather_data
''')],
  'the first hour of the year at 30 or 15 minute steps',
  'the year starts with the value of 1:00 instead of the 24:00 value of 31 December', '''
import os
import numpy as np
from heat_load_calc.weather import weather_data as w
f = os.path.join(os.path.dirname(w.__file__), 'expanded_amedas', '06_okayama.csv')
raw = np.loadtxt(f, delimiter=',', skiprows=2, usecols=(2, 3, 4, 5, 6), encoding='utf-8')
t = w.load(6, '15m')[0]
assert len(t) == 35040
assert abs(t[0] - raw[-1, 0]) < 1e-9, (t[0], raw[-1, 0])
assert abs(t[1] - (0.75 * raw[-1, 0] + 0.25 * raw[0, 0])) < 1e-9
''')

d('schedule-whole-household', 'P25',
  [('initializer/schedule_loader.py', '''    if 1.0 <= n_p < 2.0:
        ceil_np = 2
        floor_np = 1
    elif 2.0 <= n_p < 3.0:''', '''    if n_p == int(n_p):
        ceil_np = floor_np = int(n_p)
    elif 1.0 <= n_p < 2.0:
        ceil_np = 2
        floor_np = 1
    elif 2.0 <= n_p < 3.0:''')],
  'a household of exactly 1, 2, 3 or 4 people',
  'with both weights zero the whole schedule becomes zero', '''
import numpy as np
from heat_load_calc.initializer import schedule_loader as s
t = {str(k): [float(k)] * 96 for k in (1, 2, 3, 4)}
for n in (1.0, 1.5, 2.0, 2.75, 3.0, 4.0):
    v = s._get_interpolated_schedule(n, t)
    assert np.allclose(v, n), (n, v[0])
''')

d('transmitted-by-place', 'P26',
  [('initializer/initializer.py', '''        for i in range(n_spaces)
    ])

    # 室iの床面積, m2, [i]''', '''        for i in sorted(set(bs.connected_room_id for bs in bss2 if bs.q_trs_sol.any()), key=lambda k: k)
    ] + [
        np.zeros_like(theta_o_ns) for i in range(n_spaces - len(set(bs.connected_room_id for bs in bss2 if bs.q_trs_sol.any())))
    ])

    # 室iの床面積, m2, [i]''')],
  'a room without windows listed before a room with windows',
  'rooms with windows take the first columns, whatever their number', '''
import json
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from heat_load_calc.initializer import initializer
import house_desc as D
w = tempfile.mkdtemp()
try:
    D.weather(w)
    d = D.house()
    initializer.make_house(d, w, w)
    q = np.loadtxt(w + '/mid_data_q_trs_sol.csv', delimiter=',')
    assert q.shape == (35040, 2), q.shape
    assert q[:, 1].max() > 10.0 and q[:, 0].max() == 0.0, q.max(axis=0)
finally:
    shutil.rmtree(w)
''')

d('rooms-two-ducts', 'P27',
  [('initializer/initializer.py', '''v_int_vent_is[i, idx] = v_int_vent_is[i, idx] + volume / 3600.0''',
    '''v_int_vent_is[i, idx] = np.maximum(v_int_vent_is[i, idx], volume / 3600.0)''')],
  'two air paths from the same room into the same room', 'only the larger of two paths counts', '''
import numpy as np
from heat_load_calc.initializer import initializer as i
v = i._get_v_int_vent_is([[], [([0], 36.0), ([0], 18.0)]], 2)
assert abs(v[1, 0] - 54.0 / 3600) < 1e-12, v
''')

d('rooms-panel-capacity', 'P27',
  [('initializer/initializer.py', '''            ce_cap = ce_max_capacity * ce_area
            equip_cooling_radiative''', '''            ce_cap = ce_max_capacity * max(ce_area, 1.0)
            equip_cooling_radiative''')],
  'a radiant cooling panel of less than 1 m2', 'the capacity of small panels is that of 1 m2', '''
import house_desc as D
from heat_load_calc.initializer import initializer as i
r = D.house()['rooms']
r[0]['cooling_equipment'] = dict(equipment_type='radiative', radiative=dict(max_capacity=50.0, area=0.5))
s = i._make_spaces_dict(r)
assert abs(s[0]['equipment']['cooling']['radiative']['max_capacity'] - 25.0) < 1e-9
''')

d('boundary-rear-influence', 'P29',
  [('initializer/initializer.py', '''k_ei_js.append({'id': int(bs.rear_surface_boundary_id), 'coef': 1.0})''',
    '''k_ei_js.append({'id': int(bs.rear_surface_boundary_id), 'coef': 1.0 if bs.rear_surface_boundary_id > bs.id else 0.99})''')],
  'the second boundary of a partition', 'one side of a partition loses 1 % of the other side temperature', '''
import json
import os
import shutil
import tempfile
from heat_load_calc.initializer import initializer
import house_desc as D
w = tempfile.mkdtemp()
try:
    D.weather(w)
    initializer.make_house_for_test(D.house(), w, w)
    b = json.load(open(w + '/mid_data_house.json'))['boundaries']
    for x in b:
        k = x['k_outside'] + (x['k_inside']['coef'] if x['k_inside'] else 0.0)
        assert abs(k - 1.0) < 1e-12, (x['id'], k)
finally:
    shutil.rmtree(w)
''')

d('boundary-panel-share', 'P29',
  [('initializer/a12_indoor_radiative_heat_transfer.py', '''    flr_i_js = area_i_js / a_floor_i * is_radiative_heating * is_floor_i_js''',
    '''    flr_i_js = np.round(area_i_js / a_floor_i, 2) * is_radiative_heating * is_floor_i_js''')],
  'a panel under several floors of uneven area', 'the shares of the floors no longer add up to one', '''
import numpy as np
from heat_load_calc.initializer import a12_indoor_radiative_heat_transfer as a
f = a.get_flr_i_js(np.array([5.0, 5.0, 5.0, 40.0]), True, np.array([True, True, True, False]))
assert abs(f.sum() - 1.0) < 1e-9, f
''')

d('weather-half-hour-clock', 'P20',
  [('weather/solar_position.py', '''        '30m': 0.5,''', '''        '30m': 0.25,''')],
  'weather at 30 minute steps', 'the clock of 30 minute steps runs at half speed', '''
import math
from heat_load_calc.weather import solar_position as s
for iv, n in (('15m', 4), ('30m', 2), ('1h', 1)):
    h, a = s.calc_solar_position(math.radians(35.0), math.radians(135.0), iv)
    for day in (0, 40, 100, 200, 364):
        k = (day * 24 + 12) * n
        assert abs(a[k]) < 0.2 and h[k] > 0.4 and h[k - 12 * n] < -0.4, (iv, day, a[k])
''')

d('shade-steep-sun', 'P21',
  [('initializer/solar_shading.py', '''        tan_fai = np.tan(h_s_n) / np.cos(a_s_n - self.w_alpha)''',
    '''        # 天頂付近では tan が発散するため太陽高度に上限を設ける。
        tan_fai = np.tan(np.minimum(h_s_n, np.radians(80.0))) / np.cos(a_s_n - self.w_alpha)''')],
  'the sun higher than 80 degrees (southern islands) and shallow eaves', 'the shadow of shallow eaves under a steep sun is too short', '''
import numpy as np
from heat_load_calc.initializer.solar_shading import SolarShadingSimple
s = SolarShadingSimple(w_alpha=0.0, depth=0.1, d_h=2.0, d_e=0.0)
h = np.array([0.5, 1.2, 1.45])
f = s.get_f_ss_d_j_ns(h, np.zeros(3))
assert np.allclose(f, 0.1 * np.tan(h) / 2.0), f
''')

d('shade-deep-eaves-sky', 'P21',
  [('initializer/solar_shading.py', '''        z = self.depth

''', '''        z = min(self.depth, self.d_h)

''')],
  'eaves deeper than the window is high', 'deep eaves keep off too little of the sky', '''
import math
from heat_load_calc.initializer.solar_shading import SolarShadingSimple
z, y, g = 3.0, 1.0, 0.2
f = SolarShadingSimple(w_alpha=0.0, depth=z, d_h=y, d_e=g).get_f_ss_s_j()
assert abs(f - (y + math.hypot(g, z) - math.hypot(g + y, z)) / (2 * y)) < 1e-9, f
''')

d('glass-grazing-sun', 'P21',
  [('initializer/oblique_incidence_charac.py', '''        return _get_tau_norm_glass_i_k_n(theta_aoi_i_k=theta_aoi_j_ns)
''', '''        return np.where(theta_aoi_j_ns < np.radians(87.0), _get_tau_norm_glass_i_k_n(theta_aoi_i_k=theta_aoi_j_ns), 0.0)
''')],
  'single glazing struck at a very flat angle', 'single glazing passes nothing at flat angles', '''
import numpy as np
from heat_load_calc.initializer import oblique_incidence_charac as o
g = o.get_tau_d_j_ns(np.array([1.0, 1.53]), 'single')
c = np.cos([1.0, 1.53])
assert np.allclose(g, 2.552 * c + 1.364 * c ** 2 - 11.388 * c ** 3 + 13.617 * c ** 4 - 5.146 * c ** 5), g
''')

d('window-glass-share', 'P23',
  [('initializer/transmission_solar_radiation.py', '''                    area=d['area'],''',
    '''                    area=d['area'] * d.get('glass_area_ratio', 1.0),''')],
  'a description that also states the share of the pane',
  'the frame share is taken off although the solar heat gain coefficient already covers the whole window', '''
import numpy as np
import house_desc as D
from heat_load_calc.initializer import solar_shading, transmission_solar_radiation as t
b = D.element('external_transparent_part', area=2.0, eta_value=0.5)
q = t.TransmissionSolarRadiation.create(b, solar_shading.SolarShadingSimple(0.0, 0.0, 1.0, 0.0)).get_qgt(
    np.array([0.3]), np.array([0.5]), np.array([0.0]), np.array([100.0]))
assert abs(q[0] - 2.0 * 0.5 * 0.9 * (50.0 + 5.0)) < 1e-9, q
''')

d('window-below-ground', 'P23',
  [('initializer/inclined_surface_solar_radiation.py', '''    f_gnd_j = 1.0 - f_sky_j
''', '''    f_gnd_j = np.clip(1.0 - f_sky_j, 0.0, 0.5)
''')],
  'a pane facing down', 'a pane facing down sees only half of the ground', '''
import numpy as np
from heat_load_calc.initializer import inclined_surface_solar_radiation as i
for beta, g in ((0.0, 0.0), (np.pi / 2, 0.5), (np.pi, 1.0)):
    r = i.get_i_is_j_ns(np.array([0.0]), np.array([100.0]), np.array([0.5]), np.array([0.1]), 0.0, beta)
    assert abs(r[2][0] - g * 10.0) < 1e-9, (beta, r[2])
''')

d('window-roof-night', 'P24',
  [('initializer/outside_eqv_temp.py', '''        r_n_is_i_j_ns = inclined_surface_solar_radiation.get_r_n_is_j_ns(r_n_ns=r_n_ns, w_beta_j=w_beta_i_j)''',
    '''        r_n_is_i_j_ns = inclined_surface_solar_radiation.get_r_n_is_j_ns(r_n_ns=r_n_ns, w_beta_j=np.pi / 2)''')],
  'a window that is not vertical', 'roof windows lose half of the night radiation', '''
import numpy as np
from heat_load_calc.initializer.outside_eqv_temp import OutsideEqvTemp
n = 8760 * 4
full = lambda v: np.full(n, v)
for dr, f in (('s', 0.5), ('top', 1.0)):
    o = OutsideEqvTemp.create(dict(boundary_type='external_transparent_part', is_sun_striked_outside=True, direction=dr,
                                   outside_emissivity=0.9, outside_heat_transfer_resistance=0.04))
    t = o.get_theta_o_sol_i_j_ns(full(10.0), full(500.0), full(100.0), full(80.0), full(0.2), full(0.4))
    assert np.allclose(t, 10.0 - 0.9 * f * 80.0 * 0.04), (dr, t[:2])
''')
