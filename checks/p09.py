from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM

BOUNDS = ('one step; every previous mode; symbolic room air and radiant temperature (-10..45 C), humidity ratio '
          '(0.0005..0.030) and demand (0..1) of a room; 2 rooms with one symbolic room each time')
ASSUMPTIONS = [REAL + ' (1e-6 PMV at the switching points)', GEOM]
B = dict(no_dehum=1, c_value=0.0)


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        t.append(Task(step.operation_mode, dict(kind='one', modes=[m], sym=('theta_r', 'mrt', 'ac'), b=B), NATIVE))
        t.append(Task(step.operation_mode, dict(kind='one', modes=[m], sym=('theta_r', 'mrt', 'x_r'), cover=False, b=B), NATIVE))
        t.append(Task(step.operation_mode, dict(kind='one', modes=[m], sym=('theta_r', 'mrt', 'ac'), const=dict(x_r=0.014),
                                                b=dict(B, rad_h=600.0, rad_c=400.0)), NATIVE))
    for ms in (('HEATING', 'STOP_OPEN'), ('STOP_CLOSE', 'COOLING'), ('COOLING', 'HEATING'), ('STOP_OPEN', 'STOP_CLOSE')):
        t.append(Task(step.operation_mode, dict(kind='two', modes=ms, sym=('theta_r', 'mrt'), b=B), NATIVE))
    for ms in (('HEATING', 'STOP_OPEN', 'COOLING'), ('STOP_CLOSE', 'COOLING', 'STOP_OPEN'), ('COOLING', 'HEATING', 'HEATING')):
        t.append(Task(step.operation_mode, dict(kind='mixed', modes=ms, sym=('theta_r:%d' % (len(t) % 3), 'mrt:%d' % (len(t) % 3)),
                                                const=dict(MIX, ac=[1.0, 0.6, 0.2], x_r=[0.005, 0.011, 0.008]), b=B), NATIVE))
    return t
