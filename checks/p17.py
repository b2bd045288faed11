from symx.run import Task
from . import runs
from .step import NATIVE
from .common_text import REAL, GEOM

BOUNDS = ('one-day runs (96 steps) of 1-, 2- and 3-room houses with and without heating/cooling demand; 6-9 symbolic rows of outdoor temperature, '
          'humidity, gains, solar and sol-air temperature per run, the other rows fixed and all different')
ASSUMPTIONS = [REAL + ' (1e-9..1e-3 relative to the quantity)', GEOM]
S = dict(theta_o=[(70, 1.0, 10.0), (71, 1.0, 10.0), (90, 1.0, 10.0)], q_gen=[(72, 300.0, 900.0), (85, 300.0, 900.0)], q_sol=[(68, 0.0, 500.0)],
         tos=[(75, 0.0, 20.0)], x_gen=[(73, 0.0, 1e-4)])
S2 = dict(theta_o=[(83, 1.0, 6.0), (87, 1.0, 6.0)], q_gen=[(82, 20.0, 120.0), (90, 20.0, 120.0)], tos=[(85, 0.0, 8.0)])
SC = dict(theta_o=[(83, 34.0, 38.0), (87, 34.0, 38.0)], q_gen=[(82, 2300.0, 2800.0), (90, 2300.0, 2800.0)], tos=[(85, 30.0, 40.0)])
SX = dict(x_o=[(91, 0.012, 0.018)], x_gen=[(90, 0.0, 3e-4)])
SM = dict(q_gen=[(89, 2300.0, 2800.0), (91, 2300.0, 2800.0)], tos=[(90, 34.0, 40.0)])
HEAT = tuple(range(28, 40)) + tuple(range(80, 92))


def tasks(tier):
    t = []
    for kind in ('one', 'two', 'three'):
        t.append(Task(runs.logging, dict(kind=kind, sym=S), NATIVE))
    t.append(Task(runs.logging, dict(kind='one', sym=S2, ac=HEAT, mode='HEATING', base=dict(q_gen=50.0)), NATIVE, limit=200))
    t.append(Task(runs.logging, dict(kind='two', sym=S2, ac=HEAT, mode='HEATING', base=dict(q_gen=50.0), b=dict(rad_h=3000.0)), NATIVE, limit=200))
    HOT = dict(theta_o=36.0, q_gen=2500.0, x_o=0.015)
    for b in (dict(rad_c=3000.0), dict(rad_c=300.0, beta=0.4), {}):
        t.append(Task(runs.logging, dict(kind='one', sym=SC, ac=HEAT[12:], mode='COOLING', base=HOT, b=b, rh_rows=()), NATIVE, limit=200))
    t.append(Task(runs.logging, dict(kind='one', sym=SX, ac=HEAT[12:], mode='COOLING', base=HOT, b=dict(no_dehum=0)), NATIVE, limit=200))
    t.append(Task(runs.logging, dict(kind='mixed', sym=SM, ac=HEAT[12:], base=HOT, mode='COOLING', rh_rows=(), b=dict(k_g=0.0)), NATIVE, limit=200))
    for si, de in ((True, True), (True, False), (False, True), (False, False)):
        t.append(Task(runs.files, dict(kind='one', sym=S, simple=si, detail=de), NATIVE))
    return t
