from symx.run import Task
from . import solar
from .common_text import REAL

BOUNDS = ('two steps; outdoor temperature -25..40 C, direct 0..1100, sky 0..600, night radiation 0..200 W/m2, sun anywhere above the horizon (or below '
          'it without direct radiation); absorptance and emissivity 0..1, outside resistance 0.01..0.2; all ten directions; ground with three steps')
ASSUMPTIONS = [REAL + ' (1e-6)', 'grazing incidence (cosine within 1e-6 of zero) left out']


def tasks(tier):
    t = []
    for d in list(solar.AZ) + ['top', 'bottom']:
        t.append(Task(solar.sol_air, dict(bt='external_general_part', direction=d)))
        t.append(Task(solar.sol_air, dict(bt='external_transparent_part', direction=d)))
    for d in ('s', 'nw', 'top', 'bottom'):
        t.append(Task(solar.sol_air, dict(bt='external_opaque_part', direction=d)))
        t.append(Task(solar.sol_air, dict(bt='external_general_part', direction=d, sun='down')))
    for bt in ('external_general_part', 'external_opaque_part', 'external_transparent_part'):
        t.append(Task(solar.sol_air, dict(bt=bt, direction='s', strike=False)))
    t.append(Task(solar.ground, {}))
    return t
