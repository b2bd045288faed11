from symx.run import Task
from . import weather
from .common_text import REAL

BOUNDS = ('every latitude 20..50 N and longitude 122..154 E, every clock time of the day; every seventh day of the year (every day: thorough); '
          'all steps of the calendar at 1 h, 30 min and 15 min')
ASSUMPTIONS = [REAL + ' (declination to 0.5 degrees, hour angle to 1.7 minutes)',
               'reference: Spencer\'s series for declination and equation of time, Japanese standard time (135 E)']


def tasks(tier):
    t = []
    st = 7 if tier == 'quick' else 1
    for d in range(1, 366, st):
        t.append(Task(weather.sun, dict(days=[d], times=[None])))
    t.append(Task(weather.sun, dict(days=[80, 172, 355], times=[9.25, None, 15.5])))
    t.append(Task(weather.calendar, {}))
    return t
