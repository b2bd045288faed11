from symx.run import Task
from . import ext
from .common_text import REAL

BOUNDS = 'one to three rooms with one to five surfaces each, areas 0.2..200 m2, up to three of a room\'s areas symbolic'
ASSUMPTIONS = [REAL + ' (1e-5)', 'the numerical root finder returns a root of the code\'s own equation (confirmed on the replayed inputs)',
               'form factors are those of the micro-sphere method at 293.15 K and emissivity 0.9']
FIX = (12.0, 30.0, 7.5, 45.0, 3.3)


def tasks(tier):
    t = []
    for rooms, sym in (([0], [0]), ([0, 0], [0, 1]), ([0, 0, 0], [0, 1, 2]), ([0, 0, 0, 0], [0, 2]), ([0, 1, 0, 1], [0, 1]), ([1, 0, 1, 0, 0], [0, 3]),
                       ([0, 0, 0, 0, 0], [2, 3]), ([2, 0, 1, 0, 2, 1], [0, 1, 2])):
        t.append(Task(ext.radiation, dict(rooms=rooms, sym=sym, fix=FIX)))
    return t
