from symx.run import Task
from . import step
from .step import NATIVE
from .p01 import MIX
from .common_text import REAL, GEOM
from .p02 import WARM, HOT

BOUNDS = ('one step with full demand; every previous mode; symbolic humidity ratio (0.0005..0.030) with cold, mild and hot thermal '
          'states, and symbolic gain / outdoor temperature at concrete humidity; convective and radiant equipment; 1, 2 rooms')
ASSUMPTIONS = [REAL + ' (1e-6 PMV)', GEOM]
B = dict(no_dehum=1, c_value=0.0)
COLD = dict(theta_o=-5.0, tos=-3.0, term=0.0, theta_r=15.0, mrt=14.0, q_gen=50.0, q_sol=0.0)


def tasks(tier):
    t = []
    for m in ('HEATING', 'COOLING', 'STOP_OPEN', 'STOP_CLOSE'):
        for k in (COLD, WARM, HOT, {}):
            cov = (m == 'HEATING' and k in (COLD, {})) or (m == 'COOLING' and k in (WARM, HOT))
            t.append(Task(step.target_pmv, dict(kind='one', modes=[m], const=k, sym=('x_r',), b=B, cover=cov), NATIVE))
        t.append(Task(step.target_pmv, dict(kind='one', modes=[m], sym=('q_gen', 'theta_o', 'theta_r', 'mrt'), cover=False, b=B), NATIVE))
        t.append(Task(step.target_pmv, dict(kind='one', modes=[m], sym=('q_gen', 'theta_o', 'theta_r', 'mrt'), cover=False,
                                            b=dict(B, rad_h=900.0, rad_c=700.0)), NATIVE))
    t.append(Task(step.target_pmv, dict(kind='two', modes=['HEATING', 'HEATING'], const=COLD, sym=('x_r',), b=B), NATIVE))
    t.append(Task(step.target_pmv, dict(kind='two', modes=['COOLING', 'COOLING'], const=HOT, sym=('x_r',), b=B), NATIVE))
    for rad in (dict(rad_h=900.0), dict(rad_c=700.0)):
        for m, k in (('HEATING', COLD), ('COOLING', HOT), ('STOP_CLOSE', {}), ('STOP_OPEN', WARM)):
            t.append(Task(step.target_pmv, dict(kind='one', modes=[m], const=k, sym=('x_r',), cover=False, b=dict(B, **rad)), NATIVE))
    for ms in (['HEATING', 'HEATING', 'COOLING'], ['HEATING', 'COOLING', 'COOLING'], ['STOP_OPEN', 'COOLING', 'HEATING']):
        t.append(Task(step.target_pmv, dict(kind='mixed', modes=ms, const=MIX, sym=('x_r',), cover=False, b=B), NATIVE))
        t.append(Task(step.target_pmv, dict(kind='mixed', modes=ms, const=dict(MIX, x_r=[0.005, 0.011, 0.013]), sym=('q_gen', 'theta_o'), cover=False, b=B), NATIVE))
    return t
