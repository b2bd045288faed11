from symx.run import Task
from . import house
from .common_text import REAL

BOUNDS = ('one to four rooms; volume, flows, equipment data symbolic; every kind of heating and cooling equipment; up to three supply paths per room; '
          'room lists with missing, repeated or out-of-order ids and room types')
ASSUMPTIONS = [REAL]
C, R, N = 'convective', 'radiative', 'not_installed'


def tasks(tier):
    t = []
    for k, (he, ce, nx) in enumerate([([C], [C], {}), ([R], [R], {}), ([C, R, N], [R, N, C], {'1': [0], '2': [0, 1]}), ([N, C], [N, C], {'0': [1, 1]}),
                                      ([R, N, C], [C, R, N], {'0': [2], '2': [1, 0, 1]}),
                                      ([C, R, R, N], [C, C, R, N], {'3': [0, 1], '1': [3], '0': [2]})]):
        t.append(Task(house.rooms_spec, dict(n=len(he), heat=he, cool=ce, next=nx, story=1 + k % 2, pressure=('negative', 'positive', 'balanced')[k % 3])))
    for ids, ty, what in (([0, 1], [0, 1], ''), ([0, 1, 2, 3], [3, 2, 1, 0], ''), ([1, 0], [0, 1], 'ids out of order'),
                          ([0, 2], [0, 1], 'a missing id'), ([0, 0], [0, 1], 'a repeated id'), ([1, 2], [0, 1], 'ids not from 0'),
                          ([0, 1], [1, 2], 'no main room'), ([0, 1], [0, 0], 'two main rooms'), ([0, 1, 2], [0, 1, 1], 'two other rooms'),
                          ([0, 1, 2], [2, 0, 2], 'two non-occupied rooms'), ([0, 1, 2], [0, 3, 3], 'two underfloor spaces')):
        t.append(Task(house.rooms_reject, dict(ids=ids, types=ty, reject=what)))
    return t
