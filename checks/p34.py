from symx.run import Task
from . import conv
from .common_text import REAL

BOUNDS = ('main room 8..60 m2, other rooms 5..80 m2 or none, remaining area 3..90 m2 or none; for the floors: floors to the outside 0.5..40 m2, earth floor '
          'in rooms 0.5..10 m2 and below the underfloor 1..100 m2; for the walls: wall areas 0.5..100 m2: all symbolic; houses of one to three rooms with and without underfloor; '
          'fixed room areas whose sum differs from the total by rounding')
ASSUMPTIONS = [REAL + ' (areas to 1e-5 m2)', 'a room has at least 0.01 m2 of floor towards other rooms, or its other floors exceed its area by as much']


def tasks(tier):
    t = []
    for other, non in ((True, True), (True, False), (False, True), (False, False)):
        three = other and non
        for uf in (True, False):
            for earth in ([], [0], [1, 2]):
                if max(earth + [0]) and not three:
                    continue
                a = dict(part='floors', other=other, non=non, uf=uf, earth=earth)
                if not (three and uf):
                    t.append(Task(conv.lv4, a))
                    continue
                for ds in [0], [1], [2]:
                    t.append(Task(conv.lv4, dict(a, dsym=ds, esym=[])))
                for ar in ((20.0, 25.0, 63.0), (31.0, 7.5, 44.0)):
                    t.append(Task(conv.lv4, dict(a, dsym=[0, 1], areas=ar)))
                    t.append(Task(conv.lv4, dict(a, dsym=[2], areas=ar)))
        t.append(Task(conv.lv4, dict(part='walls', other=other, non=non, uf=other, earth=[0])))
    for a in ((20.0, 20.3, 40.3), (20.3, 20.0, 40.3), (30.1, 30.2, 60.3), (10.1, 10.2, 20.299999999999997), (30.3, 0.0, 30.3)):
        for part in ('floors', 'walls'):
            t.append(Task(conv.lv4, dict(part=part, other=a[1] > 0, non=False, uf=True, earth=[], areas=a, copy=True)))
    return t
