D = {}


def d(i, prop, edits, needs, breaks, demo):
    D[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


d('radiation-dominant-surface', 'P14',
  [('core/shape_factor.py', '''    return 0.5 * (1.0 - np.sign(1.0 - 4.0 * r_a_srf_j / f_ver) * np.sqrt(abs(1.0 - 4.0 * r_a_srf_j / f_ver)))''',
    '''    # 面積比が大きい場合に根号の中が負にならないようにする。
    return 0.5 * (1.0 - np.sqrt(np.maximum(1.0 - 4.0 * r_a_srf_j / f_ver, 0.0)))''')],
  'a room in which one surface is larger than a share of the solution',
  'the form factors of a dominant surface stop at one half', '''
import numpy as np
from heat_load_calc.core import shape_factor as s
a = np.array([60.0, 4.0, 4.0, 4.0])
f = s._get_f_i_js(a)
assert abs(f.sum() - 1.0) < 1e-6, f
k = (1 + (2 * f - 1) * abs(2 * f - 1)) / a
assert np.allclose(k, k[0], rtol=1e-4), k
''')

d('radiation-mean-of-all', 'P14',
  [('core/shape_factor.py', '''    return p_is_js * ah.T / np.dot(p_is_js, ah)''',
    '''    return np.where(p_is_js > 0, p_is_js * ah.T / np.dot(p_is_js, ah), 1.0e-3 * (a_srf_js.T > 50.0))''')],
  'a second room with a surface above 50 m2', 'large surfaces of other rooms are seen', '''
import numpy as np
from heat_load_calc.core import shape_factor as s
p = np.array([[1, 1, 0, 0], [0, 0, 1, 1]])
a = np.array([[10.0], [70.0], [12.0], [15.0]])
f = s.get_f_mrt_is_js(a, np.full((4, 1), 5.0), p)
assert abs(f[1, 1]) < 1e-12, f
''')

d('humid-ice-table', 'P30',
  [('external/psychrometrics.py', '''    p_vs_is[theta < 0.0] = np.exp(b_1 / t[theta < 0.0]''', '''    p_vs_is[theta < -0.01] = np.exp(b_1 / t[theta < -0.01]'''),
   ('external/psychrometrics.py', ''' + b_2 + b_3 * t[theta < 0.0] + b_4 * t[theta < 0.0] ** 2 + b_5 * np.log(t[theta < 0.0]))

''', ''' + b_2 + b_3 * t[theta < -0.01] + b_4 * t[theta < -0.01] ** 2 + b_5 * np.log(t[theta < -0.01]))

''')],
  'temperatures between -0.01 and 0 degrees C', 'tables give saturation pressure zero just below freezing', '''
import numpy as np
from heat_load_calc.external import psychrometrics as p
t = np.array([-3.0, -0.005, 0.0, 4.0])
assert np.allclose(p.get_p_vs_is2(t), [p.get_p_vs(x) for x in t]), p.get_p_vs_is2(t)
''')

d('aircon-small-room', 'P31',
  [('external/rac.py', '''    q_max_c = np.maximum(0.8462 * q_rtd_c_is + 1205.9, q_rtd_c_is)''',
    '''    q_max_c = np.where(q_rtd_c_is > 800.0, np.maximum(0.8462 * q_rtd_c_is + 1205.9, q_rtd_c_is), 2.45 * q_rtd_c_is)''')],
  'rooms around 4 m2', 'just above 800 W the greatest capacity falls while the room grows', '''
import numpy as np
from heat_load_calc.external import rac
a = np.array([3.9, 3.95, 3.97, 4.0, 10.0])
h, c = rac.get_q_rtd(a)
m = rac.get_q_max(h, c)[1]
assert np.all(np.diff(m) >= 0.0), m
''')

d('ua-capped-kinds', 'P32',
  [('convert/get_u_psi_eta_from_u_a_and_eta_a.py', '''            f_u_base = f_u_max_subtractable
''', '''            f_u_base = f_u_base or f_u_max_subtractable
''')],
  'a UA value so poor that two kinds of parts reach their highest U-value one after the other',
  'the share already given to the first capped kinds is counted instead of that of the last', '''
from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as g
from heat_load_calc.convert.get_u_psi_eta_from_u_a_and_eta_a import PartType
region = 6
std = dict(zip(PartType._fields, (10.0, 8.0, 60.0, 30.0, 3.0, 4.0, 5.0, 90.0, 12.0, 20.0)))
cap = g.get_f_u_psi_max_each_part(region)
for q in (100.0, 300.0, 600.0, 900.0, 1400.0, 2000.0):
    f = g.get_f_u_psi(q_std=std, f_u_psi_max_each_part=cap, q=q)
    assert abs(sum(std[p] * f[p] for p in std) - q) < 1e-6 * q, (q, sum(std[p] * f[p] for p in std))
''')

d('eta-winter-eaves', 'P32',
  [('convert/get_u_psi_eta_from_u_a_and_eta_a.py', '''        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws''',
    '''        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='heating') for s in ws''')],
  'windows whose shading differs between the seasons', 'the glass gain for heating is derived with the summer share of the sunshades', '''
from heat_load_calc.convert import get_u_psi_eta_from_u_a_and_eta_a as g
from heat_load_calc.convert.ees_house import WindowNoSpec, SpaceType
from heat_load_calc.convert.factor_f import SunshadeTransientExistSimple
from heat_load_calc.external.factor_h import NextSpace
from heat_load_calc.external.factor_nu import Direction
w = WindowNoSpec(name='w', next_space=NextSpace.OUTDOOR, direction=Direction.S, area=20.0, space_type=SpaceType.UNDEFINED,
                 sunshade=SunshadeTransientExistSimple(0.9, 1.1, 0.3))
h, c = g.get_eta_d_each(6, 3.0, 3.0, 0.5, 0.4, ws=[w])
f = w.get_f(region=6, season='heating') * w.get_nu(region=6, season='heating') * 20.0
assert abs(h * f - 2.5) < 1e-9, h * f
''')

d('divide-bridge-rest', 'P33',
  [('convert/convert_lv2_to_lv3.py', '''    l_evlp_nr_i = (a_f_total - a_f_mr - a_f_or) / a_f_total * l_evlp
''', '''    l_evlp_nr_i = max(a_f_total - a_f_mr - a_f_or, 1.0) / a_f_total * l_evlp
''')],
  'a non occupant room of less than 1 m2', 'the lengths of the pieces exceed the heat bridge', '''
from heat_load_calc.convert import convert_lv2_to_lv3 as c
for t in (120.0, 60.5, 60.0):
    assert abs(sum(c.get_separated_lengths(10.0, 30.0, 30.0, t)) - 10.0) < 1e-9, t
''')

d('divide-window-shade', 'P33',
  [('convert/convert_lv2_to_lv3.py', '''        sunshade=d.sunshade,
        door_spec=d.door_spec''', '''        sunshade=d.sunshade if area >= 1.0 else ees_house.factor_f.SunshadeOpaqueNotInput(),
        door_spec=d.door_spec''')],
  'a door share of less than 1 m2 under a sunshade', 'small shares of doors lose their sunshade', '''
from heat_load_calc.convert import convert_lv2_to_lv3 as c
from heat_load_calc.convert.ees_house import Door
g = {k: 0.3 for k in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns')}
d = dict(name='d', next_space='outdoor', direction='s', area=2.0, space_type='undefined', spec=dict(u_value=3.0),
         sunshade=dict(is_defined=True, input='complex', **g))
o = Door.make_doors([d])[0]
for x in c.get_doors_lv3(30.0, 30.0, 120.0, [o]):
    assert x.get_as_dict()['sunshade'] == o.get_as_dict()['sunshade'], x.get_as_dict()['sunshade']
''')

d('inner-wall-two-rooms', 'P34',
  [('convert/convert_lv3_to_lv4.py', '''        a_iw_mr_or = 0.0
        a_iw_mr_nr = (a_iw_mr + a_iw_nr) / 2''', '''        a_iw_mr_or = 0.0
        a_iw_mr_nr = max(a_iw_mr, a_iw_nr)''')],
  'a house without other occupant rooms', 'the wall between the two rooms is the larger of both needs instead of their mean', '''
from heat_load_calc.convert import convert_lv3_to_lv4 as c
r = c.get_inner_wall_total_area_between_rooms(30.0, 0.0, 50.0, 40.0, 20.0, 30.0)
assert abs(r[1] - 35.0) < 1e-9, r
''')

d('inner-floor-small-rest', 'P34',
  [('convert/convert_lv3_to_lv4.py', '''        if area > 0.0:
            ifs.append(''', '''        if area > 0.1:
            ifs.append(''')],
  'a piece of floor below 0.1 m2', 'small pieces of floor are dropped', '''
from heat_load_calc.convert import convert_lv3_to_lv4 as c
from heat_load_calc.convert.ees_house import EarthfloorCenter, EarthfloorCenterSpec
e = [EarthfloorCenter(name='e', area=0.2, space_type='underfloor', earthfloor_center_spec=EarthfloorCenterSpec([]))]
f = c.make_inner_floors(dict(main_occupant_room_floor_area=30.0, other_occupant_room_floor_area=30.0, total_floor_area=90.0), [], [], [], e)
a = sum(x.area for x in f if x.lower_space_type == 'underfloor')
assert abs(a - 0.2) < 1e-9, a
''')

d('model-house-base-inside', 'P35',
  [('convert/model_house.py', '''    a_evp_base_total_inside = a_evp_base_other_inside + a_evp_base_etrc_inside + a_evp_base_bath_inside
''', '''    a_evp_base_total_inside = a_evp_base_other_inside + a_evp_base_etrc_inside
''')],
  'a house with a base-insulated bathroom', 'the inner edge of the bathroom is left out of the base walls', '''
from heat_load_calc.convert import model_house as m
r = m._get_a_evp_base_total((0.3, 0.0, 0.0, 0.2), 0.4, (0.5, 0.6, 0.0, 0.0), 0.7, (1.0, 1.0, 1.0, 1.0), 0.0)
assert abs(r[1] - 1.1) < 1e-9, r
''')

d('model-house-large', 'P35',
  [('convert/model_house.py', '''    return [4 * a_f_i ** 0.5 * f_s_i for a_f_i, f_s_i in zip(a_f, f_s)]''',
    '''    return [4 * min(a_f_i, 100.0) ** 0.5 * f_s_i for a_f_i, f_s_i in zip(a_f, f_s)]''')],
  'a storey above 100 m2', 'large storeys get the edge of a 100 m2 storey', '''
from heat_load_calc.convert import model_house as m
for a in (60.0, 99.0, 144.0):
    assert abs(m._get_l_prm([a], [1.1])[0] - 4 * a ** 0.5 * 1.1) < 1e-9, a
''')

d('part-steel-bridges', 'P36',
  [('convert/ees_house.py', '''u_add=u_add + self._u_r_value_steel)''', '''u_add=max(u_add, self._u_r_value_steel))''')],
  'a steel part with a heat-bridge addition', 'the load calculation gets only the larger of the two additions', '''
from heat_load_calc.convert import ees_house as e
l = e.Layer.make_layers([dict(name='a', heat_resistance_input_method='resistance', thickness=0.1, volumetric_specific_heat=100.0, thermal_resistance=1.5)])
s = e.GeneralPartSpecDetailSteel(0.2, 0.11, 0.04, [e.GeneralPartPart('p', 1.0, l)])
b = s.make_initializer_dict('w', 10.0, 0.1)[0]
r = sum(x['thermal_resistance'] for x in b['layers']) + 0.15
assert abs(1 / r - (1 / 1.65 + 0.3)) < 1e-9, 1 / r
''')

d('part-heavy-ceiling', 'P36',
  [('convert/ees_house.py', '''        r_other = sum([layer.r for layer in default_layers if type(layer) == Layer])''',
    '''        r_other = sum({layer.name: layer.r for layer in default_layers if type(layer) == Layer}.values())''')],
  'a kind of part with two layers of the same board', 'one of two equal boards is forgotten and the U-value is missed', '''
from heat_load_calc.convert import ees_house as e
for t in e.GeneralPartType:
    s = e.GeneralPartSpecUValueOther(general_part_type=t, u_value_other=0.5, weight='light')
    for b in s.make_initializer_dict('w', 10.0, 0.0):
        r = sum(x['thermal_resistance'] for x in b['layers']) + b['inside_heat_transfer_resistance'] + b['outside_heat_transfer_resistance']
        assert abs(1 / r - 0.5) < 1e-9, (t, 1 / r)
''')

d('roundtrip-bridge-sides', 'P37',
  [('convert/ees_house.py', '''            'next_spaces': [next_space.value for next_space in self.next_spaces],''',
    '''            'next_spaces': sorted(next_space.value for next_space in self.next_spaces),''')],
  'a heat bridge whose sides are not in alphabetical order', 'the sides no longer match their directions after writing', '''
from heat_load_calc.convert.ees_house import Heatbridge
d = dict(name='h', next_spaces=['outdoor', 'air_conditioned'], directions=['s', 'horizontal'], length=3.0, space_type='undefined', spec=dict(psi_value=0.2))
assert Heatbridge.make_heatbridges([d])[0].get_as_dict() == d
''')

d('roundtrip-shade-gap', 'P37',
  [('convert/factor_f.py', '''            'existence': True,
            'input_method': 'simple',
            'depth': self._depth,
            'd_h': self._d_h,
            'd_e': self._d_e''', '''            'existence': self._depth > 0.2,
            'input_method': 'simple',
            'depth': self._depth,
            'd_h': self._d_h,
            'd_e': self._d_e''')],
  'eaves of 0.2 m or less', 'shallow eaves are handed over as none', '''
from heat_load_calc.convert.factor_f import SunshadeTransientExistSimple
for z in (0.1, 0.5):
    d = SunshadeTransientExistSimple(z, 1.0, 0.2).make_initializer_dict()
    assert d['existence'] is True, d
''')

d('loss-bridge-sides', 'P38',
  [('convert/ees_house.py', '''        h = sum(hs) / len(hs)
''', '''        h = max(hs)
''')],
  'a heat bridge between different neighbouring spaces', 'a heat bridge takes the colder of its two sides', '''
from heat_load_calc.convert.ees_house import Heatbridge
d = dict(name='h', next_spaces=['outdoor', 'air_conditioned'], directions=['s', 'horizontal'], length=3.0, space_type='undefined', spec=dict(psi_value=0.2))
h = Heatbridge.make_heatbridges([d])[0]
hs = h.get_hs(6)
assert hs[0] != hs[1] and abs(h.get_q(6) - 0.6 * sum(hs) / 2) < 1e-9, h.get_q(6)
''')

d('gain-west-eaves', 'P38',
  [('convert/factor_f.py', '''                    return min(0.01 * (24 + 9 * (3 * self._d_e + self._d_h) / self._depth), 0.93)''',
    '''                    return 0.01 * (24 + 9 * (3 * self._d_e + self._d_h) / self._depth)''')],
  'shallow eaves over a south window in summer', 'the share passing shallow eaves exceeds one', '''
from heat_load_calc.convert.factor_f import SunshadeTransientExistSimple
from heat_load_calc.external.factor_nu import Direction
for z in (0.1, 0.3, 1.0):
    f = SunshadeTransientExistSimple(z, 2.0, 0.5).get_f(region=6, season='cooling', direction=Direction.S)
    assert 0.0 <= f <= 1.0, (z, f)
''')

d('room-air-supply', 'P41',
  [('convert/convert_lv4_to_h_hlc.py', '''    v_vent_ex_or = v_vent * a_or / (a_mr + a_or)  # その他の居室''',
    '''    v_vent_ex_or = v_vent * a_or / (a_a - a_mr) if a_a > a_mr else 0.0  # その他の居室''')],
  'a house with a non occupant room', 'part of the air of the other occupant rooms is lost to the area of the rest', '''
from heat_load_calc.convert import convert_lv4_to_h_hlc as c
a = c.get_v_vent_ex(120.0, 30.0, 50.0, 0.5)
assert abs(a[1] / a[0] - 5.0 / 3.0) < 1e-9, a
''')
