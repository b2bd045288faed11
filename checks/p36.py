from symx.run import Task
from . import conv2
from .common_text import REAL

BOUNDS = ('part area 0.5..80 m2, shares of two parts 0.05..0.95, layer thickness 5..300 mm, resistances 0.05..3 m2K/W, capacities, surface resistances 0.03..0.2, '
          'addition for heat bridges 0..0.3 W/m2K and for steel frames 0..0.4: symbolic; wood, reinforced concrete, steel; U-value parts 0.1..6 W/m2K of every kind and weight; '
          'doors 0.5..6.5 W/m2K; rooms, directions, regions and neighbouring spaces in rotation')
ASSUMPTIONS = [REAL + ' (resistances to 1e-7 relative)', 'the part is connected to a room']
SPACES = ('outdoor', 'open_space', 'closed_space', 'open_underfloor', 'air_conditioned', 'closed_underfloor')
ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')


def tasks(tier):
    t, n = [], 0

    def where():
        nonlocal n
        n += 1
        sp = SPACES[n % 6] if n % 2 else 'outdoor'
        return dict(space=sp, room=ROOMS[n % 4], region=1 + n % 8, direction=conv2.DIRECTIONS[n % 10] if sp == 'outdoor' else 'horizontal')
    for s in ('wood', 'rc', 'steel'):
        for parts in (1, 2):
            for add in (False, True):
                for kind in conv2.KINDS if tier != 'quick' else (conv2.KINDS[n % 7], conv2.KINDS[(n + 3) % 7]):
                    t.append(Task(conv2.part_layers, dict(where(), structure=s, parts=parts, add=add, kind=kind)))
    for kind in conv2.KINDS:
        for w in ('light', 'heavy'):
            for add in (False, True):
                t.append(Task(conv2.part_u, dict(where(), kind=kind, weight=w, add=add)))
    for i in range(12):
        t.append(Task(conv2.door_out, where()))
    return t
