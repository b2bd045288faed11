from symx.run import Task
from . import rf
from .common_text import REAL

BOUNDS = ('constructions of 1-4 layers in which one thermal resistance (0.01..5 m2K/W), one heat capacity (0.1..500 kJ/m2K) and/or the outside '
          'resistance (0..0.2) is symbolic; U-values 0.2..6.5 and inside resistances 0.05..0.15; external, internal and ground elements')
ASSUMPTIONS = [REAL + ' (1e-6; 1e-5 for the least-squares fit)',
               'cosh/sinh are uninterpreted apart from ranges; the transfer functions of passive RC chains lie in [0, total resistance] and [0, 1]']
X, N, G = 'external_general_part', 'internal', 'ground'


def tasks(tier):
    t = []
    for f in (rf.steady, rf.fit):
        t.append(Task(f, dict(bt=X, layers=[(10.0, 0.0568), (0.0, (0.01, 0.5)), (5.3, 2.1)], ro=(0.0, 0.2))))
        t.append(Task(f, dict(bt=X, layers=[(10.0, 0.0568), (0.0, 0.1), (5.3, (0.1, 5.0))], ro=0.04)))
        t.append(Task(f, dict(bt=X, layers=[(10.0, 0.0568), (0.0, 0.1), ((0.1, 500.0), 0.5)], ro=0.04)))
        t.append(Task(f, dict(bt=N, layers=[(10.0, 0.0568), (0.0, 0.09), ((0.1, 50.0), 0.0568)], ro=0.11)))
        t.append(Task(f, dict(bt=X, layers=[((20.0, 400.0), 0.1)], ro=0.09)))
        t.append(Task(f, dict(bt=G, layers=[(10.0, 0.0568), (0.0, 0.1), ((0.1, 500.0), 0.5)])))
        t.append(Task(f, dict(bt=G, layers=[(300.0, (0.05, 0.5))])))
    t.append(Task(rf.steady, dict(bt=X, layers=[((1.0, 50.0), (0.02, 0.4)), (0.0, (0.01, 0.5)), ((0.1, 20.0), (0.3, 5.0))], ro=(0.0, 0.2), twice=True)))
    t.append(Task(rf.steady, dict(bt=G, layers=[((50.0, 400.0), (0.05, 0.4)), (0.0, (0.01, 3.0))], twice=True)))
    t.append(Task(rf.steady, dict(bt=X, layers=[(0.0, (0.02, 4.0))], ro=0.04)))
    for bt in ('external_transparent_part', 'external_opaque_part'):
        t.append(Task(rf.steady_u, dict(bt=bt, u=(0.2, 6.5), ri=0.11)))
        t.append(Task(rf.steady_u, dict(bt=bt, u=(0.2, 5.0), ri=(0.05, 0.15), twice=True)))
    if tier == 'thorough':
        t.append(Task(rf.fit, dict(bt=X, layers=[(12.0, 0.05), (300.0, 0.094), (1.2, (0.2, 4.0))], ro=0.04), limit=900))
        t.append(Task(rf.fit, dict(bt=X, layers=[(8.6, 0.075), (0.0, 0.09), (5.3, 2.1), ((0.5, 30.0), 0.043)], ro=0.04), limit=900))
        t.append(Task(rf.fit, dict(bt=N, layers=[(17.3, 0.075), ((0.5, 40.0), (0.2, 1.0))], ro=0.15), limit=900))
    return t
