from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM
from .p02 import WARM

BOUNDS = ('one 15-min step from an arbitrary thermal state; 1 room (convective, radiant) and 2 rooms; previous modes; symbolic '
          'gains, outdoor/sol-air/room/surface temperatures, heat flows, occupants (ranges as in P01); demand fraction 1 and '
          '0.4 with every symbol, 0..1 symbolic with gain and outdoor temperature; humidity concrete; natural-ventilation '
          'opening excluded from the comparison with the free-running temperature')
ASSUMPTIONS = [REAL + ' (1e-4 K, 1 W at the switching point)', GEOM]
SYM = ('q_gen', 'theta_o', 'n_hum', 'q_sol', 'tos', 'theta_r', 'mrt', 'term', 'q_srf', 'theta_frt', 'theta_ei')
S1 = ('q_gen', 'theta_o', 'ac')
S2 = ('q_gen', 'theta_o')


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        for ac in ((1.0, 0.4) if m != 'STOP_OPEN' else (1.0,)):
            t.append(Task(step.loads, dict(kind='one', modes=[m], sym=SYM, const=dict(ac=ac), b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    for m in ('HEATING', 'COOLING'):
        t.append(Task(step.loads, dict(kind='one', modes=[m], sym=S1, const=WARM if m == 'COOLING' else {}, b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
        t.append(Task(step.loads, dict(kind='one', modes=[m], sym=SYM, b=dict(no_dehum=1, c_value=0.0, rad_h=600.0, rad_c=400.0, beta=0.3)), NATIVE, limit=200))
    t.append(Task(step.loads, dict(kind='two', modes=['HEATING', 'HEATING'], sym=S2, cover=False, b=dict(no_dehum=1, c_value=0.0, rad_h=500.0)), NATIVE, limit=200))
    t.append(Task(step.loads, dict(kind='two', modes=['HEATING', 'HEATING'], sym=S2, const=dict(ac=0.5), b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    t.append(Task(step.loads, dict(kind='two', modes=['HEATING', 'COOLING'], sym=S2, cover=False, const=dict(WARM, term=1.9, theta_r=21.0), b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    t.append(Task(step.loads, dict(kind='two', modes=['COOLING', 'COOLING'], sym=S2, cover=False, const=WARM, b=dict(no_dehum=1, c_value=0.0, rad_c=400.0)), NATIVE, limit=200))
    for m in (['HEATING', 'HEATING', 'COOLING'], ['STOP_CLOSE', 'COOLING', 'HEATING'], ['HEATING', 'COOLING', 'COOLING']):
        t.append(Task(step.loads, dict(kind='mixed', modes=m, sym=S2 + ('tos', 'theta_ei', 'q_sol'), const=MIX, cover=False, b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    return t
