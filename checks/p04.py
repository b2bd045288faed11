from symx.run import Task
from . import step
from .step import NATIVE
from .common_text import REAL, GEOM

BOUNDS = ('2 to 8 consecutive steps; symbolic equilibrium temperature (-20..40 C) and humidity ratio (0.0005..0.030); houses of 1, 2 and '
          '3 rooms, light, heavy and massless elements, with and without infiltration, local ventilation, radiant systems')
ASSUMPTIONS = [REAL + ' (1e-3 K, 1e-9 kg/kg)', GEOM]


def tasks(tier):
    t = []
    k = 8 if tier == 'thorough' else 3
    for kind, n in (('one', 1), ('steady', 1), ('two', 2), ('three', 3), ('mixed', 3), ('ground2', 2)):
        ms = ['STOP_CLOSE', 'HEATING', 'COOLING'][:n]
        t.append(Task(step.equilibrium, dict(kind=kind, what='T', modes=ms, steps=k, b=dict(k_g=1.0, c_value=0.0, no_dehum=1)), NATIVE))
        t.append(Task(step.equilibrium, dict(kind=kind, what='X', modes=ms, steps=k, lv=0.02, b=dict(k_g=1.0, c_value=3.0, rad_h=500.0)), NATIVE))
        t.append(Task(step.equilibrium, dict(kind=kind, what='X', T=-8.0, modes=ms, steps=k, b=dict(k_g=1.0, c_value=5.0, pressure='balanced')), NATIVE))
    t.append(Task(step.equilibrium, dict(kind='one', what='TX', modes=['COOLING'], steps=2, lv=0.01, b=dict(k_g=1.0, c_value=0.0, no_dehum=1)), NATIVE))
    return t
