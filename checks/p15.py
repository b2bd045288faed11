from symx.run import Task
from . import runs, step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM
from .p02 import WARM

BOUNDS = ('one step from an arbitrary state; 1-room, 2-room and 3-room houses (with radiant heating, inter-room flow) compared with the '
          'same house listed in 1-3 other orders each (reversed, interleaved, rooms swapped); symbolic gains, outdoor/sol-air temperature, solar, '
          'surface heat flows and previous surface-equivalent temperatures; at most one room conditioned')
ASSUMPTIONS = [REAL + ' (1e-6 K, 1e-3 W)', GEOM]
S = ('q_gen', 'theta_o', 'q_sol', 'tos', 'q_srf', 'theta_ei')
B = dict(no_dehum=1, c_value=0.0)


T = dict(theta_o=[(k, 1.0, 10.0) for k in (0, 70, 95, 130, 191, 250, 287)], q_gen=[(72, 300.0, 900.0)], q_sol=[(74, 0.0, 500.0)], tos=[(75, 0.0, 20.0)])


def tasks(tier):
    t = []
    one = [[0], [3, 0, 4, 2, 1]]
    two = [[[1, 0], [7, 6, 5, 4, 3, 2, 1, 0]], [[0, 1], [4, 0, 5, 1, 6, 2, 7, 3]], [[1, 0], [0, 1, 2, 3, 4, 5, 6, 7]]]
    three = [[[2, 0, 1], [9, 3, 1, 0, 8, 2, 7, 5, 4, 6]], [[0, 1, 2], [0, 2, 3, 1, 4, 5, 8, 6, 7, 9]]]
    for m in ('HEATING', 'COOLING', 'STOP_CLOSE'):
        t.append(Task(step.order, dict(kind='one', modes=[m], sym=S, perm=one, b=dict(B, rad_h=600.0)), NATIVE))
    for p in two:
        t.append(Task(step.order, dict(kind='two', modes=['HEATING', 'STOP_CLOSE'], sym=S, perm=p, const=dict(ac=[1.0, 0.0], n_hum=[1.0, 2.5]),
                                       b=dict(B, rad_h=500.0, nxt=0.01)), NATIVE))
        t.append(Task(step.order, dict(kind='two', modes=['STOP_OPEN', 'COOLING'], sym=S, perm=p, const=dict(WARM, ac=[0.0, 1.0], x_r=[0.014, 0.011], theta_r=[28.0, 27.0]),
                                       b=B), NATIVE))
        t.append(Task(step.order, dict(kind='two', modes=['STOP_OPEN', 'COOLING'], sym=('x_gen', 'x_o', 'x_r', 'x_frt'), perm=p, const=dict(WARM, ac=[0.0, 1.0], theta_r=[28.0, 27.0]),
                                       b=dict(c_value=2.0, nxt=0.01)), NATIVE))
    for p in three:
        t.append(Task(step.order, dict(kind='three', modes=['HEATING', 'STOP_CLOSE', 'STOP_OPEN'], sym=('q_gen', 'theta_o', 'q_sol'), perm=p,
                                       const=dict(ac=[1.0, 0.0, 1.0], theta_r=[18.0, 19.5, 21.0], lv=[0.0, 0.01, 0.02]), b=dict(B, rad_h=700.0, nxt=0.01)), NATIVE))
    for p in ([[2, 0, 1], [10, 8, 6, 4, 2, 0, 9, 7, 5, 3, 1]], [[1, 2, 0], [3, 6, 0, 9, 1, 8, 2, 7, 5, 10, 4]], [[0, 2, 1], list(range(11))]):
        for ms in (['HEATING', 'STOP_CLOSE', 'STOP_CLOSE'], ['STOP_CLOSE', 'COOLING', 'STOP_OPEN'], ['STOP_OPEN', 'STOP_CLOSE', 'COOLING']):
            t.append(Task(step.order, dict(kind='mixed', modes=ms, sym=('q_gen', 'theta_o', 'q_sol', 'tos', 'theta_ei'), perm=p,
                                           const=dict(MIX, ac=[1.0 if x != 'STOP_CLOSE' else 0.0 for x in ms], lv=[0.0, 0.01, 0.02]), b=dict(B, nxt=0.01)), NATIVE))
    for p in ([[1, 0], [3, 1, 4, 0, 2]], [[0, 1], [0, 3, 2, 1, 4]], [[1, 0], [0, 1, 2, 3, 4]]):
        t.append(Task(runs.order, dict(kind='ground2', sym=T, run_up=2, build=1, data=3, ground_mean=True, perm=p, b=dict(k_g=1.0)), NATIVE))
    t.append(Task(runs.order, dict(kind='mixed', sym=T, run_up=1, build=0, data=2, ground_mean=True, perm=[[2, 0, 1], [10, 8, 6, 4, 2, 0, 9, 7, 5, 3, 1]]), NATIVE))
    return t
