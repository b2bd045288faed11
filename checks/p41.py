from symx.run import Task
from . import conv2
from .common_text import REAL

BOUNDS = ('room areas 0.5..120 m2, air change rate 0.1..2 1/h, natural ventilation 0..20 1/h, UA value 0.1..6: symbolic; every combination of existing rooms; all structures')
ASSUMPTIONS = [REAL]


def tasks(tier):
    t = [Task(conv2.rooms, dict(have=[a, b, c])) for a in (True, False) for b in (True, False) for c in (True, False)]
    return t + [Task(conv2.leakage, {})]
