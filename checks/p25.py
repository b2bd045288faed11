from symx.run import Task
from . import house
from .common_text import REAL

NATIVE = ['initializer.' + x for x in ('boundary_simple', 'outside_eqv_temp', 'solar_shading', 'transmission_solar_radiation',
                                     'inclined_surface_solar_radiation', 'oblique_incidence_charac', 'response_factor')]
BOUNDS = ('schedule tables with fixed distinct values in every slot and symbolic ones in two (quick) or more slots per day type, of every quantity and '
          'household size; one to four rooms; total floor area symbolic over each range of household sizes (1..1000 m2); a calendar mixing the day types')
ASSUMPTIONS = [REAL]


def tasks(tier):
    t = []
    slots = [[0, 0], [1, 95], [2, 40]] if tier == 'quick' else [[0, 0], [0, 95], [1, 0], [1, 95], [2, 40], [2, 95]]
    for lo, hi in ((1.0, 29.9), (30.0, 59.9), (60.0, 89.9), (90.0, 119.9), (120.0, 1000.0)):
        t.append(Task(house.schedules, dict(area=[lo, hi], slots=slots), native=NATIVE, validate=1))
    for a in (30.0, 60.0, 90.0, 120.0):
        t.append(Task(house.schedules, dict(area=[a, a], slots=[[1, 7]], rooms=1), native=NATIVE, validate=1))
    t.append(Task(house.schedules, dict(area=[95.0, 95.0], slots=[[1, 7]], rooms=3, share=[0.2, 0.5, 0.3]), native=NATIVE, validate=1))
    t.append(Task(house.schedules, dict(area=[60.0, 89.9], slots=[[0, 33]], rooms=4), native=NATIVE, validate=1))
    return t
