from symx.run import Task
from . import conv
from .common_text import REAL

BOUNDS = ('floor area 60..250 m2, opening ratio 0.05..0.2, envelope area 0..3.5 m2 per m2 floor area or not given: all symbolic; '
          'detached houses with every combination of floor/foundation insulation and bathroom floor, apartments')
ASSUMPTIONS = [REAL + ' (areas to 1e-5 m2)']


def tasks(tier):
    t = []
    for house, cs in conv.CASES.items():
        for fl, b in cs:
            for env in (False, True):
                t.append(Task(conv.model_house, dict(house=house, floor=fl, bath=b, env=env)))
    return t
