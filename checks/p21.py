from symx.run import Task
from . import solar
from .common_text import REAL

BOUNDS = ('window of 0.3..2.5 m height under eaves 0.05..2 m deep, 0..1 m above the window (one symbolic at a time, and all three for some cases); sun '
          'anywhere above the horizon (or below it); eight directions; symbolic radiation')
ASSUMPTIONS = [REAL + ' (1e-6)', 'grazing incidence (cosine within 1e-6 of zero) left out']


def tasks(tier):
    t = [Task(solar.glass, dict(glass=g)) for g in ('single', 'multiple')]
    for k, d in enumerate(solar.AZ):
        ev = [((0.05, 2.0), 1.2, 0.3), (0.91, 1.1, (0.0, 1.0))][k % 2] if len(d) == 2 else \
            [((0.05, 2.0), 1.2, 0.3), (0.6, (0.3, 2.5), 0.3), (0.91, 1.1, (0.0, 1.0))][k % 3]
        t.append(Task(solar.transmitted, dict(direction=d, glass='single', eaves=ev, sym_area=False)))
    t.append(Task(solar.transmitted, dict(direction='s', glass='multiple', eaves=(0.6, 1.2, 0.2), sym_area=False)))
    t.append(Task(solar.transmitted, dict(direction='e', glass='single', eaves=((0.05, 2.0), 1.2, 0.3), sun='down')))
    t.append(Task(solar.transmitted, dict(direction='w', glass='single', eaves=((0.05, 2.0), (0.3, 2.5), (0.0, 1.0)), sym_area=False)))
    return t
