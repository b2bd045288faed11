from symx.run import Task
from . import step
from .step import NATIVE
from .common_text import REAL, GEOM

BOUNDS = ('one 15-min step from an arbitrary moisture state; buildings of 1 room and 2 rooms; every previous operation '
          'mode; several concrete thermal states (with and without dehumidification); symbolic: room and furniture '
          'humidity ratio (0.0005..0.030), outdoor humidity ratio (0.0005..0.025), moisture generation (0..1e-3 kg/s), '
          'local ventilation (0..0.15 m3/s), occupants (0..5)')
ASSUMPTIONS = [REAL + ' (1e-2 W of latent heat)', GEOM,
               'temperatures, sensible gains and schedules concrete (9 thermal states)', 'no inter-room air transfer (P03)']
WARM = dict(theta_o=33.0, tos=38.0, q_gen=400.0, q_sol=600.0, term=2.8, theta_frt=29.0, theta_ei=30.0, q_srf=2.0,
            mrt=29.0, theta_r=27.0)
HOT = dict(WARM, q_gen=900.0, term=3.6, theta_o=36.0)
MILD = dict(WARM, term=1.4, theta_o=20.0)
EQ = [{}, dict(rad_c=350.0, beta=0.1), dict(rad_h=300.0)]          # convective, radiant and convective cooling in three rooms
SYM = ('x_gen', 'x_o', 'n_hum', 'x_r', 'x_frt')


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        for k in (WARM, HOT, MILD, {}):
            t.append(Task(step.moisture_balance, dict(kind='one', modes=[m], const=k, sym=SYM,
                                                      cover=(m == 'COOLING' and k in (WARM, HOT))), NATIVE))
        t.append(Task(step.moisture_balance, dict(kind='one', modes=[m], const=WARM, sym=SYM + ('lv',),
                                                  cover=m == 'COOLING'), NATIVE))
    for ms in (('COOLING', 'COOLING'), ('STOP_OPEN', 'COOLING'), ('HEATING', 'STOP_OPEN')):
        t.append(Task(step.moisture_balance, dict(kind='two', modes=ms, const=WARM, sym=SYM, cover=False), NATIVE))
    for ms in (('COOLING', 'COOLING', 'COOLING'), ('COOLING', 'STOP_OPEN', 'COOLING')):
        t.append(Task(step.moisture_balance, dict(kind='mixed', modes=ms, const=dict(HOT, theta_r=[27.0, 28.0, 29.0], n_hum=[1.0, 0.0, 3.0]), sym=('x_gen', 'x_r', 'x_frt'),
                                                  cover=False, b=dict(eq=EQ)), NATIVE))
    if tier == 'thorough':
        for ms in (('COOLING', 'COOLING', 'STOP_CLOSE'), ('STOP_OPEN', 'COOLING', 'HEATING')):
            t.append(Task(step.moisture_balance, dict(kind='three', modes=ms, const=HOT, sym=SYM, cover=False), NATIVE,
                          limit=3000))
    return t
