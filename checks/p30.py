from symx.run import Task
from . import ext
from .common_text import REAL

BOUNDS = 'temperature -50..0 and 0..100 C, vapour pressure 10..20000 Pa, humidity ratio 1e-5..0.1 kg/kg: symbolic'
ASSUMPTIONS = [REAL + ' (1e-6 relative to the range)', 'exp and log are the same functions in the code and the oracle']


def tasks(tier):
    return [Task(ext.psych, dict(t=(-50.0, -1e-6))), Task(ext.psych, dict(t=(0.0, 100.0)))]
