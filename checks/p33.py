from symx.run import Task
from . import conv
from .common_text import REAL

BOUNDS = ('room areas 0.5..300 and 0..300 m2, total 5..1000 m2, element areas and lengths 0.05..300: all symbolic; four houses with elements of every kind '
          '(layered and U-value walls, sunshades of every description, two windows, heat bridges, earth floor)')
ASSUMPTIONS = [REAL + ' (areas to 1e-7 m2, shares to 1e-5)', 'the rooms are not larger than the house']


def tasks(tier):
    return [Task(conv.lv3, dict(variant=k)) for k in range(4)]
