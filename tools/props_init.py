"""Property texts (preparation of inputs: weather, sun, house description)."""
from props_core import p as _p
import props_core

P = []
I = 'heat_load_calc/initializer/'
W = 'heat_load_calc/weather/'


def p(*a, **k):
    props_core.P, old = P, props_core.P
    try:
        _p(*a, **k)
    finally:
        props_core.P = old


SUN = 'every radiation and temperature of the two steps, every position of the sun, all directions, every element parameter in range'
WHY = ('Tests compare a few stored numbers for single elements; a relation that must hold for every sun position, direction '
       'and element parameter cannot be sampled completely.')

p('P19', 'Weather series interpolate the hourly data of the region without gaps',
  'The weather handed to the calculation has one row per interval (1 h, 30 min or 15 min) of a 365-day year starting on 1 January 0:00. '
  'Row values at full hours are the hourly data (hour 24 of 31 December serving as 0:00 of 1 January), rows in between interpolate linearly '
  'between the two neighbouring hours, humidity converted from g/kg to kg/kg. Each of the eight regions uses its own data file and the latitude and longitude of its own city, '
  'and weather.csv holds the same values.',
  ['inputs', 'configurations'], 'every hourly value (five quantities), the hours at the ends and in the middle of the year symbolic, all intervals and regions',
  'Tests look at one region\'s stored file at a few hours; the join at the year end and the weights between hours must hold for every value.',
  [W + 'weather.py', W + 'weather_data.py', W + 'region_location.py'],
  [('hourly data to intervals', W + 'weather_data.py:load'), ('assembling the weather table', W + 'weather.py:make_weather'),
   ('place of a region', W + 'region_location.py:get_phi_loc_and_lambda_loc')],
  'the weather table and weather.csv', 'model checking over the data values; all rows, intervals and regions')
p('P20', 'The sun stands where the day, the clock and the place put it',
  'At every step the sun\'s altitude and azimuth (zero south, west positive) are those of a sun with the day\'s declination (to 0.5 degrees) and with the hour angle '
  'that follows from Japanese standard time, the longitude and the equation of time (to 1.7 minutes); step k of the year belongs to day k//(24n)+1 and clock time (k mod 24n)/n.',
  ['inputs', 'configurations'], 'every latitude 20..50 N, longitude 122..154 E and time of day, on days through the year',
  'Tests compare a handful of stored angles at one place; quadrant and sign errors of the azimuth appear only at particular hours, dates and latitudes.',
  [W + 'solar_position.py'], [('sun position', W + 'solar_position.py:calc_solar_position')], 'returned altitudes and azimuths',
  'model checking over latitude, longitude and time with exact trigonometric identities; reference Spencer series')
p('P21', 'Eaves keep off exactly the sun they shade and part of the sky',
  'For a window under eaves (simple description: depth, window height, gap) the direct radiation transmitted is reduced by the fraction of the window height in the '
  'shadow of the eaves, (depth x tan(profile angle) - gap)/height limited to 0..1, and the sky radiation by the crossed-strings share '
  '(height + sqrt(gap^2+depth^2) - sqrt((gap+height)^2+depth^2))/(2 height); ground-reflected radiation is not reduced. Nothing is shaded while the sun is down. '
  'The angle characteristic of the glass is the stated polynomial (relative transmittance between 0 and 1.01) for single and multiple glazing.',
  ['inputs', 'configurations'], SUN, WHY, [I + 'solar_shading.py', I + 'transmission_solar_radiation.py', I + 'oblique_incidence_charac.py'],
  [('shading fractions', I + 'solar_shading.py:SolarShadingSimple'), ('transmitted radiation', I + 'transmission_solar_radiation.py')],
  'transmitted solar radiation of a window made by get_boundary_simple', 'model checking over sun position, radiation and eaves dimensions; floats as reals')
p('P23', 'Windows transmit the radiation that falls on them and nothing else does',
  'A sun-struck window without shading transmits area x solar heat gain coefficient x (direct x angle characteristic + (sky + ground-reflected) x diffuse transmittance), with direct radiation '
  'only while the sun is in front of the pane, sky radiation by the sky view factor of the orientation (vertical 0.5, top 1, bottom 0) and 10 % of the '
  'horizontal radiation reflected from the ground. The amount is never negative. Opaque, internal, ground and sheltered elements transmit nothing.',
  ['inputs', 'configurations'], SUN, WHY,
  [I + 'transmission_solar_radiation.py', I + 'inclined_surface_solar_radiation.py', I + 'boundary_simple.py'],
  [('transmitted radiation', I + 'transmission_solar_radiation.py'), ('radiation on a slope', I + 'inclined_surface_solar_radiation.py')],
  'transmitted solar radiation of elements made by get_boundary_simple',
  'model checking over sun position, radiation and element; one recorded finding (windows without eaves)')
p('P24', 'The outside temperature of an element adds absorbed sun and night cooling',
  'A sun-struck opaque wall or opening sees outdoor air temperature + outside resistance x (absorptance x (direct + sky + ground-reflected radiation on its plane) - emissivity x sky view factor x night radiation); '
  'a window the same without the solar term; a sheltered element the outdoor air temperature; a ground element the mean outdoor temperature of the whole period at every step.',
  ['inputs', 'configurations'], SUN, WHY, [I + 'outside_eqv_temp.py', I + 'inclined_surface_solar_radiation.py', I + 'boundary_simple.py'],
  [('equivalent outside temperature', I + 'outside_eqv_temp.py'), ('element assembly', I + 'boundary_simple.py:get_boundary_simple')],
  'theta_o_sol of elements made by get_boundary_simple', 'model checking over sun position, radiation and element parameters')
HOUSE = 'every numeric value of the house description in range, over the listed shapes of houses'
p('P25', 'Schedules are those of the household\'s size, day type and quarter hour',
  'The number of residents is one per 30 m2 of floor area, at least one and at most four. Row n of each schedule file (local ventilation, heat and moisture generation, occupants, demand) '
  'is, for each room, the value of quarter hour n mod 96 in the daily table of that room for the calendar\'s type of day n//96, interpolated linearly between the tables for the next smaller and '
  'next larger number of residents. Local ventilation is converted from m3/h to m3/s, moisture from g/h to kg/s; heat is appliances plus cooking heat plus lighting per m2 times the room\'s floor area, '
  'moisture is the cooking vapour. Files have 35040 rows, one column per room; an underfloor space has zeros only.',
  ['inputs', 'configurations'], 'every table value and every floor area, all days and quarter hours, all day types',
  'Tests only compare one stored house; the interpolation must hold for every household size and table.',
  [I + 'schedule_loader.py', I + 'residents_number.py', I + 'initializer.py'],
  [('schedule compilation', I + 'schedule_loader.py:get_compiled_schedules'), ('residents', I + 'residents_number.py:get_total_number_of_residents')],
  'mid_data_*.csv written by make_house', 'model checking over table values and floor area; one recorded finding (cooking heat and vapour)')
p('P26', 'Each room gets the sun of its own windows, each element its own outside',
  'In the files written for the calculation, the transmitted solar radiation of a room at a step is the sum over exactly the elements connected to that room, and the outside '
  'temperature column j is that of element j, in the order of the house description, whatever that order is and however many rooms there are.',
  ['inputs', 'configurations'], 'every radiation and temperature of four steps; several house layouts', 'Tests use one or two stored houses with elements listed room by room.',
  [I + 'initializer.py', I + 'boundary_simple.py'], [('assembly of the series', I + 'initializer.py:make_house')],
  'mid_data_q_trs_sol.csv and mid_data_theta_o_sol.csv', 'model checking over the weather values on three house layouts')
p('P27', 'Rooms reach the calculation as described, and inconsistent rooms are rejected',
  'Each room of the house description becomes one space with the same number, name and volume; mechanical ventilation in m3/s (m3/h / 3600), window ventilation volume x air changes / 3600, '
  'supply from other rooms summed per source room in m3/s in the row of the receiving room; furniture heat capacity 12.6 kJ/K per m3 with conductance 0.00022/s times it, moisture capacity '
  '16.8 kg per m3 with conductance 0.0018/s times it; radiant capacity W/m2 x panel area; convective cooling minimum/maximum capacity and air flow; exactly the described kind of heating and cooling installed. '
  'Storeys, C value and pressure of the building are passed on. Room ids that are not 0, 1, 2, .. or a set of room types without exactly one main occupant room or with a repeated type are rejected.',
  ['inputs', 'configurations'], HOUSE, 'Tests compare a few stored houses; each value must arrive for every house.', [I + 'initializer.py', I + 'furniture.py'],
  [('spaces of the engine input', I + 'initializer.py:_make_spaces_dict'), ('furniture', I + 'furniture.py')], 'mid_data_house.json',
  'model checking over all numeric fields for one to four rooms')
p('P29', 'Elements reach the calculation with influences and shares that add up',
  'Each element becomes one boundary with its room, area, coefficients, build-up (layers or U value) and solar absorption flag. For outside elements the outside influence is the temperature difference coefficient and the '
  'rest to one is the influence of its own room side; for partitions the other side\'s boundary has influence one; ground elements see only their ground temperature. '
  'In every room the occupants\' view factors are 0.45 over the floors and 0.55 over the other elements, each by area; with a radiant heating or cooling panel the floors share it by area, without one all shares are zero.',
  ['inputs', 'configurations'], HOUSE, 'Tests compare stored houses with coefficients 0, 0.7 and 1; the sums must be one for every house.',
  [I + 'initializer.py', I + 'occupants_form_factor.py', I + 'a12_indoor_radiative_heat_transfer.py', I + 'boundary_simple.py'],
  [('boundaries of the engine input', I + 'initializer.py:_make_boundaries'), ('view factors', I + 'occupants_form_factor.py'), ('panel shares', I + 'a12_indoor_radiative_heat_transfer.py')],
  'mid_data_house.json', 'model checking over areas, coefficients and layer data on five houses')
