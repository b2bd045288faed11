from symx.run import Task
from . import house
from .common_text import REAL

NATIVE = ['initializer.schedule_loader']
BOUNDS = 'four steps of symbolic outdoor temperature and radiation; houses of one to four rooms with and without windows, elements listed in and out of room order'
ASSUMPTIONS = [REAL + ' (1e-6)', 'sun positions concrete (P21, P23 and P24 cover the single element over all of them)']
W, O, T, N, G = 'external_general_part', 'external_opaque_part', 'external_transparent_part', 'internal', 'ground'


def tasks(tier):
    ls = [[1, [[W, 0, 's'], [T, 0, 's'], [T, 0, 'e'], [W, 0, 'bottom'], [G, 0, 's']]],
          [2, [[T, 1, 'sw'], [W, 0, 'n'], [T, 0, 's'], [N, 0, 4], [N, 1, 3], [T, 1, 'top'], [W, 1, 'bottom'], [W, 0, 'bottom'], [O, 0, 'w']]],
          [3, [[T, 2, 's'], [T, 0, 'e'], [W, 1, 's'], [T, 1, 'w'], [T, 0, 's'], [T, 2, 'n'], [W, 0, 'bottom'], [W, 1, 'bottom'], [W, 2, 'bottom'], [T, 1, 's']]],
          [2, [[T, 1, 's'], [W, 0, 'bottom'], [W, 0, 'w'], [W, 1, 'bottom']]],
          [4, [[W, 0, 'bottom'], [T, 2, 'e'], [W, 1, 'bottom'], [W, 2, 'bottom'], [O, 0, 's'], [N, 1, 6], [N, 0, 5], [T, 2, 's'], [W, 3, 'bottom'], [W, 3, 'n']]],
          [2, [[W, 0, 'bottom'], [W, 0, 's'], [G, 1, 's'], [O, 1, 'e'], [W, 1, 'bottom']]]]
    return [Task(house.series, dict(rooms=n, list=x), native=NATIVE) for n, x in ls]
