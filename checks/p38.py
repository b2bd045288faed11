from symx.run import Task
from . import conv2
from .common_text import REAL

BOUNDS = ('areas and lengths 0.1..100, U-values 0.1..6.5 W/m2K, linear values 0.1..3 W/mK, glass gains 0..0.88, sunshade depth 0.1..2 m, window height 0.3..2.5 m, gap 0..1 m: '
          'symbolic; eight regions, both seasons, ten directions, six neighbouring spaces')
ASSUMPTIONS = [REAL + ' (1e-7)', 'region 8 has no heating season']


def tasks(tier):
    t = []
    for region in range(1, 9):
        for season in ('heating', 'cooling'):
            if region == 8 and season == 'heating':
                continue
            for w in ('part', 'door', 'perimeter', 'bridge'):
                t.append(Task(conv2.losses, dict(what=w, region=region, season=season), validate=1))
            for s in ('simple', 'not_input'):
                t.append(Task(conv2.losses, dict(what='window', shade=s, region=region, season=season), validate=1))
    return t
