from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM

BOUNDS = ('one step; 1, 2 and 3 rooms; symbolic room temperature at the start of the step (-10..45 C) with concrete numbers of '
          'occupants (0..4, fractional) and symbolic number of occupants (0..5) at concrete temperatures')
ASSUMPTIONS = [REAL + ' (1e-6 W)', GEOM]
B = dict(no_dehum=1, c_value=0.0)


def tasks(tier):
    t = []
    for n in (0.0, 1.0, 2.35, 4.0):
        t.append(Task(step.occupants, dict(kind='one', modes=['STOP_CLOSE'], sym=('theta_r',), const=dict(n_hum=n, ac=0.0), b=B), NATIVE))
    for th in (-5.0, 8.0, 10.0, 19.0, 27.0, 38.0):
        t.append(Task(step.occupants, dict(kind='one', modes=['STOP_CLOSE'], sym=('n_hum',), const=dict(theta_r=th, ac=0.0), b=B), NATIVE))
    t.append(Task(step.occupants, dict(kind='one', modes=['HEATING'], sym=('theta_r',), const=dict(n_hum=1.5), b=B), NATIVE))
    t.append(Task(step.occupants, dict(kind='two', modes=['STOP_CLOSE'] * 2, sym=('theta_r',), const=dict(ac=0.0), b=B), NATIVE))
    t.append(Task(step.occupants, dict(kind='two', modes=['STOP_CLOSE'] * 2, sym=('n_hum',), const=dict(ac=0.0), b=B), NATIVE))
    t.append(Task(step.occupants, dict(kind='three', modes=['STOP_CLOSE'] * 3, sym=('theta_r',), const=dict(ac=0.0), b=B), NATIVE))
    for ms in (['HEATING', 'COOLING', 'STOP_OPEN'], ['STOP_CLOSE'] * 3):
        t.append(Task(step.occupants, dict(kind='mixed', modes=ms, sym=('n_hum',), const=MIX, b=B), NATIVE))
    return t
