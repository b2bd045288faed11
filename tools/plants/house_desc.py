"""A small house description (two rooms, one window in the second) and weather for demonstrations."""
import numpy as np
import pandas as pd


def element(bt, **o):
    b = dict(id=0, name='b', sub_name='', connected_room_id=0, boundary_type=bt, area=5.0, is_sun_striked_outside=True, temp_dif_coef=1.0,
             next_room_type='main_occupant_room', rear_surface_boundary_id=0, is_solar_absorbed_inside=False, is_floor=False, direction='s',
             inside_heat_transfer_resistance=0.11, h_c=2.5, solar_shading_part={'existence': False}, outside_solar_absorption=0.8,
             outside_emissivity=0.9, outside_heat_transfer_resistance=0.04, u_value=3.0, eta_value=0.6, incident_angle_characteristics='single',
             glass_area_ratio=0.8, layers=[dict(name='a', thermal_capacity=10.0, thermal_resistance=0.1)])
    if bt in ('internal', 'ground'):
        for k in ('is_sun_striked_outside', 'direction', 'temp_dif_coef'):
            del b[k]
    b.update(o)
    return b


def room(i, t, **o):
    r = dict(id=i, name=t, room_type=t, volume=70.0, vent=60.0, next_vent=[], natural_vent_time=5.0, floor_area=30.0,
             heating_equipment=dict(equipment_type='not_installed'), cooling_equipment=dict(equipment_type='not_installed'))
    r.update(o)
    return r


def house():
    g = 'external_general_part'
    bs = [element(g, id=0, name='floor0', is_floor=True, area=20.0, direction='bottom'), element(g, id=1, name='wall0', area=25.0),
          element('internal', id=2, name='part0', rear_surface_boundary_id=5),
          element(g, id=3, name='floor1', connected_room_id=1, is_floor=True, area=12.0, direction='bottom', temp_dif_coef=0.7),
          element('external_transparent_part', id=4, name='window1', connected_room_id=1),
          element('internal', id=5, name='part1', connected_room_id=1, rear_surface_boundary_id=2)]
    return dict(building=dict(story=1, c_value=2.0, inside_pressure='negative'),
                rooms=[room(0, 'main_occupant_room'), room(1, 'other_occupant_room')], boundaries=bs)


def weather(w):
    n = 35040
    t = np.arange(n) % 96 / 96.0 * 2 * np.pi
    pd.DataFrame({'temperature': 10 - 5 * np.cos(t), 'absolute humidity': np.full(n, 0.006),
                  'normal direct solar radiation': np.maximum(-np.cos(t), 0) * 500, 'horizontal sky solar radiation': np.maximum(-np.cos(t), 0) * 100,
                  'outward radiation': np.full(n, 60.0), 'sun altitude': -np.cos(t) * 0.8, 'sun azimuth': t - np.pi}).to_csv(w + '/weather.csv')
