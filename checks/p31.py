from symx.run import Task
from . import ext
from .common_text import REAL

BOUNDS = 'floor area 1..120 m2: symbolic (two rooms)'
ASSUMPTIONS = [REAL]


def tasks(tier):
    return [Task(ext.rac, {})]
