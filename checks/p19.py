from symx.run import Task
from . import weather
from .common_text import REAL

BOUNDS = ('all 8760 hours, intervals of 1 h, 30 min and 15 min; hours 0, 1, 4000, 8758 and 8759 (and their neighbours) symbolic in all five '
          'quantities (temperature -25..38 C, radiation 0..1000 W/m2, humidity 0.5..24 g/kg), the other hours fixed and different from each other; eight regions')
ASSUMPTIONS = [REAL + ' (temperature to 0.0005 K, humidity to 5e-7 kg/kg, the decimals written)', 'the sun position columns are the subject of P20']


def tasks(tier):
    t = []
    hours = [0, 1, 4000, 8758, 8759] if tier == 'quick' else [0, 1, 2, 23, 24, 1416, 4000, 4001, 8757, 8758, 8759]
    for iv in ('1h', '30m', '15m'):
        t.append(Task(weather.interpolation, dict(interval=iv, region=6, hours=hours), validate=1))
    for r in range(1, 9):
        t.append(Task(weather.regions, dict(region=r), validate=1))
    return t
