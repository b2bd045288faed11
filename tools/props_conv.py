"""Property texts (conversion of the energy-standard description of a house; external formulas)."""
from props_core import p as _p
import props_core

P = []
C = 'heat_load_calc/convert/'
X = 'heat_load_calc/external/'


def p(*a, **k):
    props_core.P, old = P, props_core.P
    try:
        _p(*a, **k)
    finally:
        props_core.P = old


p('P32', 'The house made from UA and eta-A values has exactly those values',
  'The house description derived from UA, eta-A heating and eta-A cooling has the asked UA value unless every part stands at the highest U-value assumed for its kind, with all U-values in proportion '
  'to the region\'s standard U-values up to that limit. The glass gains derived from it meet the asked eta-A values unless they stand at the bounds 0 and 0.88, heating values being absent in region 8. '
  'The package\'s own check function reports the values recomputed here from areas, U-values, regional temperature-difference and orientation factors.',
  ['inputs', 'configurations'], 'every UA, eta-A heating and eta-A cooling value and floor area in range, all eight regions, house and insulation types',
  'Tests try a few combinations; the adjustment iterates over limits of single parts, and which parts hit a limit depends on the combination of region, house and values.',
  [C + 'get_u_psi_eta_from_u_a_and_eta_a.py', C + 'convert_indices_to_lv2_info.py', C + 'check_ua_a_eta_a.py', X + 'factor_h.py', X + 'factor_nu.py', C + 'factor_f.py'],
  [('U-values and gains from the indices', C + 'get_u_psi_eta_from_u_a_and_eta_a.py'), ('house from the indices', C + 'convert_indices_to_lv2_info.py:convert_spec'),
   ('check of the indices', C + 'check_ua_a_eta_a.py')],
  'the house description returned by convert_spec', 'model checking over UA and eta-A values; floats as reals')
p('P33', 'Dividing a house among its rooms keeps every area, length and property',
  'When a house without room usage is divided among its rooms, each general part, window, door and heat bridge becomes one per room (main occupant, other occupant, non occupant) with area or length in proportion to the '
  'rooms\' floor areas and distinct names, everything else unchanged. The parts together have the area or length of the original. Earth floors go to the underfloor unchanged.',
  ['inputs', 'configurations'], 'every area, length and floor-area split in range; all kinds of parts, sunshades and specifications',
  'Tests compare one split; conservation of area and of each attribute must hold for every split and kind of part.',
  [C + 'convert_lv2_to_lv3.py', C + 'ees_house.py'], [('distribution to rooms', C + 'convert_lv2_to_lv3.py:convert_spec')],
  'the house description returned by convert_spec', 'model checking over areas, lengths and floor areas; floats as reals')
p('P34', 'Floors and walls between rooms complete the rooms\' geometry',
  'The floor area of a room not resting on outside floors or on its own earth floor lies over the underfloor, in proportion over all rooms so that the whole underfloor earth floor is covered, and the rest equally over the other rooms. '
  'Partition walls between rooms follow from the room perimeters (4 x shape factor 1.2 or 1.4 x 2.8 m x square root of the floor area) less the outer walls, windows and doors, never negative. '
  'Only pieces of positive area between existing rooms appear, each once, and the given parts are unchanged.',
  ['inputs', 'configurations'], 'every room area, floor, earth floor and wall area in range; houses of one to three rooms, with and without underfloor and earth floors; room areas that differ from the total by rounding',
  'Tests look at one house; which pieces exist depends on the signs of many differences, and rooms of zero area arise only from rounding.',
  [C + 'convert_lv3_to_lv4.py'], [('inner floors', C + 'convert_lv3_to_lv4.py'), ('inner walls', C + 'convert_lv3_to_lv4.py:convert_spec')],
  'the house description returned by convert_spec', 'model checking over room and part areas; floats as reals')
p('P35', 'The model house has the geometry of the standard for every floor area',
  'The model house for a floor area, envelope area, storey height and house and insulation type closes: floor areas of the storeys, roof, outer floors and earth floors sum to the storey area, '
  'wall, window and door areas per orientation add up to the given envelope area when that is given, and earth-floor perimeters match the edges of bathroom and entrance. No area or length is negative.',
  ['inputs', 'configurations'], 'every floor area 50..500 m2 and envelope area in range, detached and attached houses, all insulation types of floors, bath and entrance',
  'Tests look at one floor area per house type; the geometry is a chain of branches and square roots over the floor area.',
  [C + 'model_house.py'], [('model house', C + 'model_house.py')], 'the returned geometry of the house', 'model checking over floor and envelope area; floats as reals')
p('P36', 'Parts and doors are handed to the load calculation with their thermal values',
  'A part given by layers has the U-value given by the area shares of its constructions (1 / sum of surface and layer resistances, plus the addition for steel frames) and is handed to the load calculation as boundaries that together have its area and U-value including the heat-bridge '
  'addition, with the layers\' heat capacities, room, sun exposure, orientation and temperature-difference coefficient kept. A part given by its U-value is handed over with layers of its kind and weight reaching that U-value, '
  'without insulation where no insulation is needed. Doors keep area, U-value, room and orientation.',
  ['inputs', 'configurations'], 'every layer thickness, resistance, capacity, share, addition, U-value and area in range; all kinds, structures, weights and neighbouring spaces',
  'Tests compare single examples; conversion scales all layers of every construction and depends on kind, structure, weight and whether insulation is needed.',
  [C + 'ees_house.py'], [('parts to boundaries', C + 'ees_house.py'), ('doors to boundaries', C + 'ees_house.py')],
  'the boundaries returned for the load calculation', 'model checking over layers, shares and U-values; floats as reals')
p('P37', 'A house description survives reading and writing, and its sunshades the handover',
  'Reading the parts of a house description and writing them again gives the same description and leaves the read one unchanged, for every kind of part, window, door, heat bridge and earth floor. '
  'Sunshades are handed to the load calculation with the same geometry, in a form it accepts and reads back, parts without one as without.',
  ['inputs', 'configurations'], 'every number of the description symbolic; all kinds of parts, structures, glazings, frames, spaces and sunshades',
  'Tests construct some objects in memory; a field lost or renamed for one kind shows only when that kind is written or handed over.',
  [C + 'ees_house.py', C + 'factor_f.py', 'heat_load_calc/initializer/solar_shading.py'], [('reading and writing parts', C + 'ees_house.py'), ('sunshades', C + 'factor_f.py')],
  'the descriptions returned and what the load calculation reads from them', 'model checking over the numbers of the description; floats as reals')
p('P38', 'Heat loss and solar gain of every part follow its values, place and orientation',
  'The heat loss of a part per kelvin is area x U-value (length x linear transmittance) x the temperature-difference coefficient of its neighbouring space and region, a heat bridge taking the mean of both sides. '
  'Only parts facing outdoors gain from the sun: 0.034 x U x area x the factor of region, season and orientation for opaque parts, and window area x glass gain x that factor x the sunshade\'s share, which stays between 0 and 1.',
  ['inputs', 'configurations'], 'every area, length, U-value, gain and sunshade geometry in range; eight regions, both seasons, ten orientations, all neighbouring spaces',
  'Tests sample a few regions and orientations of the tables; the formulas must hold for each kind, region and sunshade.',
  [C + 'ees_house.py', C + 'factor_f.py', X + 'factor_h.py', X + 'factor_nu.py'], [('losses and gains of parts', C + 'ees_house.py'), ('sunshade factors', C + 'factor_f.py')],
  'the values returned by the parts of a house description', 'model checking over values and geometry; floats as reals')
p('P41', 'Rooms and airtightness derived from the house description keep its totals',
  'The rooms handed to the load calculation are the existing ones with the volume of their floor area at 2.4 m (underfloor 0.4 m), their floor areas and ventilation kept. The outdoor air of the given air change rate is divided between the occupied rooms by floor area and all of it '
  'passes on to the non-occupant room. The equivalent leakage area is proportional to the UA value with the factor of the structure.',
  ['inputs', 'configurations'], 'every floor area, air change rate and UA value in range; every combination of existing rooms and structures',
  'Tests look at one house with all rooms; absent rooms and the split of the air are not covered.',
  [C + 'convert_lv4_to_h_hlc.py', 'heat_load_calc/initializer/estimate_c_value.py'], [('rooms', C + 'convert_lv4_to_h_hlc.py:make_initial_rooms'), ('leakage', 'heat_load_calc/initializer/estimate_c_value.py')],
  'the rooms and the leakage value returned', 'model checking over areas, rates and UA values; floats as reals')
p('P14', 'Radiative exchange in a room closes and follows the surfaces\' areas',
  'The radiative heat transfer coefficients of a room\'s surfaces are those of form factors that sum to one (micro-sphere method: the signed squares (2F-1)|2F-1|, plus one, are proportional to the areas), at 20 degrees C and emissivity 0.9. '
  'The mean radiant temperature weighs each surface of the room by area x coefficient, sums to one and gives surfaces of other rooms no weight.',
  ['inputs', 'configurations'], 'every surface area 0.2..200 m2; rooms of one to five surfaces in any order',
  'Tests compare one room; the coefficients solve a nonlinear equation whose branch changes when one surface dominates the room.',
  ['heat_load_calc/core/shape_factor.py'], [('radiative coefficients and weights', 'heat_load_calc/core/shape_factor.py')],
  'the coefficients and weights returned', 'model checking over areas; floats as reals; the root finder is replaced by any root')
p('P30', 'Humid-air conversions agree with each other and with the saturation formula',
  'Saturation pressure follows the Wexler-Hyland formula over water from 0 degrees C and over ice below, the same for single values and tables. Relative humidity is vapour pressure over saturation pressure in percent. '
  'Humidity ratio and vapour pressure (0.622 p / (101325 - p)) invert each other within 0.01 % and grow together.',
  ['inputs'], 'every temperature -50..100 C, vapour pressure 10..20000 Pa and humidity ratio 1e-5..0.1',
  'Tests look at a few temperatures; the three implementations of saturation pressure and the two directions of the humidity conversion must agree for all values.',
  [X + 'psychrometrics.py'], [('humid air', X + 'psychrometrics.py')], 'the values returned', 'model checking over temperature and pressure; floats as reals, exp and log uninterpreted')
p('P31', 'Air-conditioner sizes grow with the room and stay ordered',
  'The rated cooling capacity is 190.5 x floor area + 45.6 W up to 5600 W; rated heating, greatest capacities and air flows follow from it. '
  'Greatest capacities are never below the rated ones, a larger room never gets a smaller unit, and the smallest air flow is 55 % of the greatest.',
  ['inputs'], 'every floor area 1..120 m2', 'Tests do not cover the sizing; limits and maxima change the branch with the floor area.',
  [X + 'rac.py'], [('sizing', X + 'rac.py')], 'the capacities and air flows returned', 'model checking over floor area; floats as reals')
