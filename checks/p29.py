from symx.run import Task
from . import house
from .common_text import REAL

BOUNDS = ('houses of one to three rooms with up to ten elements of every kind, in and out of room order; areas, coefficients, temperature difference '
          'coefficients, U values and layer data symbolic; every combination of heating and cooling equipment per room')
ASSUMPTIONS = [REAL, 'every room has at least one floor and one other element']
W, O, T, N, G = 'external_general_part', 'external_opaque_part', 'external_transparent_part', 'internal', 'ground'
C, R, X = 'convective', 'radiative', 'not_installed'


def tasks(tier):
    ls = [(1, [C], [C], [[W, 0, True, None, 0], [W, 0, False, 1, 0], [T, 0, False, None, 0], [O, 0, False, 1, 0]]),
          (1, [R], [X], [[G, 0, True, None, 0], [W, 0, False, 1, 0], [T, 0, False, 1, 0], [W, 0, True, 1, 0]]),
          (1, [C], [R], [[W, 0, True, 1, 0], [W, 0, False, None, 0], [T, 0, False, None, 0]]),
          (2, [R, C], [C, C], [[W, 1, False, None, 0], [W, 0, True, 1, 0], [N, 0, False, 1, 4], [T, 0, False, None, 0], [N, 1, False, 0, 2],
                               [W, 1, True, None, 0], [N, 1, True, 0, 7], [N, 0, False, 0, 6]]),
          (3, [X, R, C], [R, R, C], [[W, 2, False, 1, 0], [W, 0, True, 1, 0], [N, 0, False, 1, 4], [T, 2, False, None, 0], [N, 1, False, 0, 2],
                                     [W, 1, True, None, 0], [W, 2, True, 0, 7], [N, 0, True, 0, 8], [N, 1, False, 0, 7], [G, 2, True, 0, 0]])]
    return [Task(house.boundaries_spec, dict(rooms=n, heat=he, cool=ce, list=x)) for n, he, ce, x in ls]
