from symx.run import Task
from . import solar
from .common_text import REAL

BOUNDS = ('two steps; direct 0..1100, sky 0..600 W/m2, sun anywhere above the horizon (or below it without direct radiation); window area 0.2..30 m2, '
          'solar heat gain coefficient 0..0.95; single and multiple glazing; all ten directions')
ASSUMPTIONS = [REAL + ' (1e-6)', 'grazing incidence (cosine within 1e-6 of zero) left out']


def tasks(tier):
    t = []
    for d in list(solar.AZ) + ['top', 'bottom']:
        t.append(Task(solar.transmitted, dict(direction=d, glass='single')))
        if tier == 'thorough' or d in ('sw', 'n', 'e', 'top'):
            t.append(Task(solar.transmitted, dict(direction=d, glass='multiple')))
    t.append(Task(solar.transmitted, dict(direction='s', glass='single', sun='down')))
    t.append(Task(solar.transmitted, dict(direction='e', glass='multiple', sun='down')))
    for bt in ('external_general_part', 'external_opaque_part', 'internal', 'ground'):
        t.append(Task(solar.opaque_none, dict(bt=bt)))
    for bt in ('external_general_part', 'external_opaque_part', 'external_transparent_part'):
        t.append(Task(solar.opaque_none, dict(bt=bt, strike=False)))
    return t
