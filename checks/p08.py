from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM
from .p02 import WARM
from .p07 import SYM, S2

BOUNDS = ('one 15-min step from an arbitrary thermal state; 1 room with radiant heating (600 W), radiant cooling (400 W) or '
          'both, and 2 rooms of which one has a radiant system; previous modes heating, cooling, closed; symbolic gains, outdoor/sol-air/'
          'room/surface temperatures, heat flows, occupants (ranges as in P01)')
ASSUMPTIONS = [REAL + ' (1e-6 W)', GEOM, 'humidity concrete']


def tasks(tier):
    t = []
    for rad in (dict(rad_h=600.0, rad_c=400.0, beta=0.3), dict(rad_h=600.0), dict(rad_c=400.0)):
        for m in ('HEATING', 'COOLING', 'STOP_CLOSE'):
            t.append(Task(step.radiant, dict(kind='one', modes=[m], sym=SYM, cover=(m == 'HEATING' and 'rad_h' in rad) or (m == 'COOLING' and 'rad_c' in rad),
                                             b=dict(rad, no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    for m, k, rad in ((('HEATING', 'HEATING'), {}, dict(rad_h=500.0)), (('HEATING', 'COOLING'), dict(WARM, term=1.9, theta_r=21.0), dict(rad_h=500.0)),
                      (('COOLING', 'COOLING'), WARM, dict(rad_c=400.0)), (('HEATING', 'HEATING'), {}, dict(rad_c=400.0))):
        t.append(Task(step.radiant, dict(kind='two', modes=m, sym=S2, cover=False, const=k, b=dict(rad, no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    for m in (['HEATING', 'HEATING', 'COOLING'], ['STOP_CLOSE', 'COOLING', 'HEATING'], ['HEATING', 'COOLING', 'COOLING']):
        t.append(Task(step.radiant, dict(kind='mixed', modes=m, sym=S2 + ('tos', 'theta_ei', 'q_sol'), const=MIX, cover=False, b=dict(no_dehum=1, c_value=0.0)), NATIVE, limit=200))
    return t
