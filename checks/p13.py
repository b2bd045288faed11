from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM

BOUNDS = ('one step; houses of 1 and 2 storeys with balanced, positive and negative pressure; equivalent leakage areas 0, 0.7, 2 and 5 '
          'cm2/m2; 1, 2 and 3 rooms of different volume; symbolic room temperatures (-10..45 C) and outdoor temperature (-20..40 C)')
ASSUMPTIONS = [REAL + ' (1e-6 on the squared air change rate)', GEOM]


def tasks(tier):
    t = []
    for story in (1, 2):
        for p in ('balanced', 'positive', 'negative'):
            for cv in (0.7, 2.0, 5.0):
                t.append(Task(step.infiltration, dict(kind='one', modes=['STOP_CLOSE'], sym=('theta_r', 'theta_o'), const=dict(ac=0.0),
                                                      cover=cv > 1.0, b=dict(no_dehum=1, story=story, pressure=p, c_value=cv)), NATIVE))
            t.append(Task(step.infiltration, dict(kind='two', modes=['STOP_CLOSE'] * 2, sym=('theta_r', 'theta_o'), const=dict(ac=0.0),
                                                  b=dict(no_dehum=1, story=story, pressure=p, c_value=5.0)), NATIVE))
    t.append(Task(step.infiltration, dict(kind='one', modes=['STOP_CLOSE'], sym=('theta_r', 'theta_o'), const=dict(ac=0.0), cover=False,
                                          b=dict(no_dehum=1, c_value=0.0)), NATIVE))
    t.append(Task(step.infiltration, dict(kind='three', modes=['STOP_CLOSE'] * 3, sym=('theta_r', 'theta_o'), const=dict(ac=0.0),
                                          b=dict(no_dehum=1, c_value=5.0, pressure='positive', story=1)), NATIVE))
    t.append(Task(step.infiltration, dict(kind='mixed', modes=['STOP_CLOSE'] * 3, sym=('theta_r:1', 'theta_o'), const=dict(ac=0.0),
                                          b=dict(no_dehum=1, c_value=5.0, pressure='negative', story=1)), NATIVE))
    return t
