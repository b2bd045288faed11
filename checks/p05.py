from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM

BOUNDS = ('one 15-min step from an arbitrary thermal state; buildings with 1, 2 and 3 rooms; every previous mode; '
          'convective/radiant systems with and without a convective share of the radiant panel; symbolic temperatures, '
          'heat flows, gains, solar, outdoor and sol-air temperatures, demand (ranges as in P01)')
ASSUMPTIONS = [REAL + ' (1e-3 W)', GEOM, 'humidity concrete']
S2 = ('q_gen', 'theta_o', 'q_sol', 'tos', 'q_srf', 'theta_ei')
RAD = dict(no_dehum=1, c_value=0.0, rad_h=600.0, rad_c=400.0, beta=0.3)


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        t.append(Task(step.surface_balance, dict(kind='one', modes=[m], b=RAD), NATIVE))
    t.append(Task(step.surface_balance, dict(kind='two', modes=['HEATING', 'STOP_OPEN'], sym=S2,
                                             b=dict(no_dehum=1, c_value=0.0, rad_h=500.0)), NATIVE))
    t.append(Task(step.surface_balance, dict(kind='two', modes=['COOLING', 'COOLING'], sym=S2,
                                             b=dict(no_dehum=1, c_value=0.0, rad_c=500.0, beta=0.2)), NATIVE))
    t.append(Task(step.surface_balance, dict(kind='three', modes=['HEATING', 'COOLING', 'STOP_OPEN'],
                                             sym=('q_gen', 'theta_o', 'q_sol'),
                                             b=dict(no_dehum=1, c_value=0.0, rad_h=800.0)), NATIVE))
    for m in (['HEATING', 'HEATING', 'COOLING'], ['HEATING', 'COOLING', 'STOP_CLOSE']):
        t.append(Task(step.surface_balance, dict(kind='mixed', modes=m, sym=('q_gen', 'theta_o', 'q_sol', 'tos', 'theta_ei'), const=MIX,
                                    b=dict(no_dehum=1, c_value=0.0)), NATIVE))
    return t
