from symx.run import Task
from . import conv2
from .common_text import REAL

BOUNDS = ('all numbers of the description symbolic (areas and lengths 0.1..100, U-values and resistances 0.1..6, shares 0.01..0.88, sunshade geometry 0..3 m); '
          'every kind of part, structure, glass, frame, neighbouring space and sunshade')
ASSUMPTIONS = [REAL, 'sunshades of windows whose input is omitted are not handed over (the load calculation has no default sunshade)']


def tasks(tier):
    t = [Task(conv2.round_trip, dict(what=w)) for w in ('part', 'window', 'other')]
    for s in ('undefined', 'not_input', 'complex'):
        for d in ('s', 'nw', 'top'):
            t.append(Task(conv2.shade_out, dict(shade=s, opaque=True, direction=d)))
    for s in ('undefined', 'not_exist', 'simple', 'complex'):
        for d in ('s', 'e'):
            t.append(Task(conv2.shade_out, dict(shade=s, opaque=False, direction=d)))
    return t
