from symx.run import Task
from . import step
from .step import NATIVE
from .common_text import REAL, GEOM
from .p02 import EQ, WARM, HOT, MILD

SYM = ('x_gen', 'x_o', 'x_r', 'x_frt')

BOUNDS = ('one 15-min step; 1 room and 2 rooms; every previous mode; symbolic humidity state and moisture sources over '
          'concrete thermal states (with and without sensible cooling, with and without convective cooling installed), and '
          'symbolic heat gain (0..2000 W) over concrete humidity')
ASSUMPTIONS = [REAL + ' (1 W of latent heat for the coil equation)', GEOM]


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        for k in (WARM, HOT, MILD, {}):
            t.append(Task(step.dehumidification, dict(kind='one', modes=[m], const=k, sym=SYM,
                                                      cover=(m == 'COOLING' and k in (WARM, HOT))), NATIVE))
        t.append(Task(step.dehumidification, dict(kind='one', modes=[m], const=WARM, sym=SYM, b=dict(rad_c=300.0)), NATIVE))
        t.append(Task(step.dehumidification, dict(kind='one', modes=[m], const=dict(WARM, x_r=0.014, x_frt=0.014, x_o=0.018),
                                                  sym=('q_gen',), cover=m == 'COOLING'), NATIVE))
    for ms in (('COOLING', 'COOLING'), ('STOP_OPEN', 'COOLING'), ('HEATING', 'STOP_OPEN')):
        t.append(Task(step.dehumidification, dict(kind='two', modes=ms, const=WARM, sym=SYM, cover=False), NATIVE))
    for ms in (('COOLING', 'COOLING', 'COOLING'), ('COOLING', 'STOP_OPEN', 'COOLING'), ('STOP_CLOSE', 'COOLING', 'COOLING')):
        t.append(Task(step.dehumidification, dict(kind='mixed', modes=ms, const=dict(HOT, theta_r=[27.0, 28.0, 29.0], n_hum=[1.0, 0.0, 3.0]), sym=('x_gen', 'x_r', 'x_frt'),
                                                  cover=False, b=dict(eq=EQ)), NATIVE))
    return t
