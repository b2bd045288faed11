from symx.run import Task
from . import step
from .step import NATIVE
from .common_text import REAL, GEOM
from .p02 import WARM

BOUNDS = ('one step from an arbitrary state; houses of 2 and 3 rooms in which one or two rooms receive air from another (0.02 m3/s, 0.01 '
          'm3/s); previous modes closed, heating, cooling, open; symbolic gains, outdoor temperature, room/furniture temperature or humidity')
ASSUMPTIONS = [REAL + ' (1e-3 W sensible, 1e-2 W latent)', GEOM]
T = ('q_gen', 'theta_o', 'theta_r:0', 'theta_frt', 'tos')
X = ('x_gen', 'x_o', 'x_r', 'x_frt')


def tasks(tier):
    t = []
    B = dict(no_dehum=1, c_value=0.0, nxt=0.02)
    for ms in (('STOP_CLOSE', 'STOP_CLOSE'), ('HEATING', 'STOP_OPEN'), ('COOLING', 'COOLING')):
        t.append(Task(step.inter_room, dict(part='heat', kind='two', modes=ms, sym=T, b=B), NATIVE))
        t.append(Task(step.inter_room, dict(part='moisture', kind='two', modes=ms, const=WARM if ms[0] == 'COOLING' else {}, sym=X, b=dict(nxt=0.02)), NATIVE))
    ms = ('HEATING', 'STOP_CLOSE', 'STOP_OPEN')
    t.append(Task(step.inter_room, dict(part='heat', kind='three', modes=ms, sym=('q_gen', 'theta_o', 'theta_frt'), b=B), NATIVE))
    t.append(Task(step.inter_room, dict(part='moisture', kind='three', modes=ms, sym=X, b=B), NATIVE))
    for ms in (('HEATING', 'STOP_CLOSE', 'STOP_CLOSE'), ('STOP_OPEN', 'COOLING', 'STOP_CLOSE')):
        t.append(Task(step.inter_room, dict(part='heat', kind='mixed', modes=ms, sym=('q_gen', 'theta_o', 'theta_frt', 'tos'), b=B), NATIVE))
        t.append(Task(step.inter_room, dict(part='moisture', kind='mixed', modes=ms, sym=X, b=B), NATIVE))
    return t
