from symx.run import Task
from . import runs
from .step import NATIVE
from .common_text import REAL, GEOM

BOUNDS = ('runs over 1 to 4 days of data with 0 to 3 run-up days, 0 to 2 of them for the whole building; houses of 1, 2 and 3 rooms '
          'and a house on a ground slab; 5-8 symbolic rows of outdoor temperature, gains, solar and sol-air temperature')
ASSUMPTIONS = [REAL + ' (1e-4 K / W)', GEOM]
S = dict(theta_o=[(70, 1.0, 10.0), (71, 1.0, 10.0), (90, 1.0, 10.0)], q_gen=[(72, 300.0, 900.0), (85, 300.0, 900.0)], q_sol=[(74, 0.0, 500.0)],
         tos=[(75, 0.0, 20.0)])
T = dict(theta_o=[(0, 1.0, 10.0), (70, 1.0, 10.0), (95, 1.0, 10.0), (130, 1.0, 10.0), (191, 1.0, 10.0), (250, 1.0, 10.0), (287, 1.0, 10.0)])
START = dict(theta_o=[(0, 0.0, 10.0)], q_gen=[(0, 0.0, 900.0)], q_sol=[(0, 0.0, 500.0)], tos=[(0, 0.0, 20.0)], x_gen=[(0, 0.0, 1e-4)])
HEAT = tuple(range(28, 40)) + tuple(range(80, 92))


def tasks(tier):
    t = []
    for kind in ('one', 'two', 'three'):
        t.append(Task(runs.run_up, dict(kind=kind, sym=S, build=1, data=1), NATIVE))
        t.append(Task(runs.start, dict(kind=kind, sym=START), NATIVE))
    t.append(Task(runs.run_up, dict(kind='one', sym=S, build=1, data=3), NATIVE))
    t.append(Task(runs.run_up, dict(kind='one', sym=S, build=2, data=3, ac=HEAT, base=dict(q_gen=50.0)), NATIVE))
    t.append(Task(runs.ground, dict(kind='ground', sym=T, run_up=1, data=2, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.ground, dict(kind='ground', sym=T, run_up=2, data=3, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.ground_run_up, dict(kind='ground', sym=T, run_up=2, build=1, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.ground_run_up, dict(kind='ground', sym=T, run_up=3, build=2, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    # several ground elements in one house, listed between other elements
    t.append(Task(runs.ground, dict(kind='ground2', sym=T, run_up=1, data=2, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.ground_run_up, dict(kind='ground2', sym=T, run_up=2, build=1, ground_mean=True, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.ground, dict(kind='mixed', sym=T, run_up=1, data=2, ground_mean=True), NATIVE))
    if tier == 'thorough':
        t.append(Task(runs.run_up, dict(kind='two', sym=S, build=3, data=5, ac=HEAT, base=dict(q_gen=50.0)), NATIVE, limit=1800))
        t.append(Task(runs.ground, dict(kind='ground', sym=T, run_up=6, data=7, ground_mean=True, check=90, b=dict(k_g=1.0)), NATIVE, limit=1800))
        t.append(Task(runs.ground_run_up, dict(kind='ground', sym=T, run_up=5, build=3, ground_mean=True, b=dict(k_g=1.0)), NATIVE, limit=1800))
    return t
