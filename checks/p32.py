from symx.run import Task
from . import conv
from .common_text import REAL

BOUNDS = ('target UA 0.2..6 W/m2K, target eta_AC and eta_AH 0.3..6 % symbolic for six sizes of house (60..200 m2, envelope 1.6..3.45 m2 per m2 floor area; thorough: '
          'nine); envelope area symbolic 1.6..3.5 m2 per m2 for fixed targets; detached houses and apartments, eight regions')
ASSUMPTIONS = [REAL + ' (heat loss to 1e-4 W/K, eta_A times area to 0.01 %)']
SHAPES = [(60.0, 3.45), (90.0, 2.96), (120.1, 1.6), (64.3, 3.4), (149.0, 2.5), (200.0, 2.9)]


def tasks(tier):
    q = tier == 'quick'
    t = []
    shapes = SHAPES if q else [(a, e) for a in (60.0, 111.7, 200.0) for e in (1.6, 2.5, 3.45)]
    for house in ('detached', 'attached'):
        for region in range(1, 9):
            for i, s in enumerate(shapes):
                if not q or (i + region) % 2:
                    t.append(Task(conv.indices, dict(house=house, region=region, u=(0.2, 6.0), cue=True, shape=s)))
        for region in (2, 6, 8) if q else range(1, 9):
            for tg in [(0.87, 2.8, 1.4), (5.5, 4.9, 0.4)] + ([] if q else [(0.46, 1.1, 3.2), (2.1, 5.0, 5.0)]):
                t.append(Task(conv.indices, dict(house=house, region=region, target=tg, a=95.0, e=(1.6, 3.5))))
    return t
