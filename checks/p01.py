from symx.run import Task
from . import step
from .step import NATIVE

BOUNDS = ('one 15-min step from an arbitrary state; buildings with 1 room (5 surfaces), 2 rooms (8 surfaces) and 3 rooms '
          '(10 surfaces); every previous operation mode; convective/radiant heating and cooling; symbolic: room, '
          'radiant, furniture, surface-equivalent temperatures (-10..45 C), response terms (+-30 K), heat flows '
          '(+-400 W/m2), outdoor temperature (-20..40 C), gains (0..2000 W), solar (0..3000 W), occupants (0..5), '
          'sol-air temperatures (-30..80 C), demand (0..1); building geometry concrete; humidity concrete')
ASSUMPTIONS = ['floating point treated as real arithmetic (identities checked to 1e-3 W)',
               'building geometry, layer build-ups and response factors are concrete (several fixed buildings)',
               'no inter-room air transfer (covered by P03)']
LEAK = ('q_gen', 'theta_o', 'n_hum', 'q_sol', 'theta_r', 'theta_frt')
# keeps one room cold and the others warm so that heating and cooling panels run in the same step
MIX = dict(theta_r=[15.0, 29.0, 30.0], mrt=[15.0, 29.0, 30.0], theta_frt=[15.0, 29.0, 30.0], n_hum=[1.0, 2.5, 0.5])
THREE = ('q_gen', 'theta_o', 'theta_frt')
MULTI = ('q_gen', 'theta_o', 'q_sol', 'tos', 'theta_r:0', 'q_srf', 'theta_frt', 'theta_ei')


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        t.append(Task(step.air_balance, dict(kind='one', modes=[m], b=dict(no_dehum=1, c_value=0.0, rad_h=600.0, rad_c=400.0, beta=0.3)), NATIVE))
        t.append(Task(step.air_balance, dict(kind='one', modes=[m], sym=LEAK, b=dict(no_dehum=1, c_value=2.0)), NATIVE))
    for m in (('HEATING', 'STOP_OPEN'), ('COOLING', 'HEATING')):
        t.append(Task(step.air_balance, dict(kind='two', modes=m, sym=MULTI, b=dict(no_dehum=1, c_value=0.0, rad_h=500.0)), NATIVE))
    t.append(Task(step.air_balance, dict(kind='three', modes=['HEATING', 'COOLING', 'STOP_OPEN'], sym=THREE,
                                         b=dict(no_dehum=1, c_value=0.0)), NATIVE))
    for m in (['HEATING', 'HEATING', 'COOLING'], ['HEATING', 'COOLING', 'STOP_CLOSE']):
        t.append(Task(step.air_balance, dict(kind='mixed', modes=m, sym=THREE + ('q_sol', 'tos', 'theta_ei'), const=MIX, b=dict(no_dehum=1, c_value=0.0)), NATIVE))
    return t
