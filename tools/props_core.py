"""Property texts (core engine).  gen.py turns them into properties.jsonl and MANIFEST.json."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, state=state, na=na))


C = 'heat_load_calc/core/'
SEQ = C + 'sequence.py'
PRE = C + 'pre_calc_parameters.py'
NXT = C + 'next_condition.py'
LOG = C + 'log.py'

STATES = 'every thermal/moisture state at the start of a step, every weather value, gain, demand and previous operation mode, in buildings of several shapes'
WHY = ('Tests compare two annual runs and a handful of coefficients with stored numbers; they cannot show that the balance '
       'holds for every state, weather, gain, schedule and mode.')

p('P01', 'Room air and furniture obey the sensible heat balance in every step',
  'Over each 15-minute step, for a room without air supply from other rooms, the heat stored in its air equals the '
  'convection from all its surfaces, the heat carried by outdoor air (mechanical, local, infiltration and open-window flow), '
  'the internal and occupant gains, the exchange with the furniture, the convective cooling/heating and the convective share of the '
  'radiant system. The furniture stores exactly its exchange with the air plus its share of the transmitted solar heat. '
  'Open-window flow is the room\'s natural ventilation rate while the room is in the open-window mode and zero otherwise.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [SEQ, PRE, NXT],
  [('per-step room air balance', SEQ + ':run_tick'), ('coefficients before the loop', PRE + ':make_pre_calc_parameters')],
  'logged temperatures, loads, flows and the state handed to the next step',
  'model checking of one step from an arbitrary state on fixed building shapes; floats as reals, tolerance 1e-3 W')
p('P02', 'Room air and furniture obey the moisture balance in every step',
  'Over each 15-minute step, for a room without air supply from other rooms, the moisture stored in its air equals the '
  'moisture carried by outdoor air, the generated and occupant moisture, the exchange with the furniture and the moisture removed by the '
  'cooling coil (logged as the latent load). The furniture stores exactly what it exchanges with the air.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [SEQ, PRE, C + 'heat_exchanger.py'],
  [('per-step moisture balance', SEQ + ':run_tick'), ('dehumidification coefficients', C + 'heat_exchanger.py:get_dehumid_coeff')],
  'logged humidity ratios and latent loads and the state handed to the next step',
  'model checking of one step over concrete thermal states; floats as reals, tolerance 1e-2 W latent')
p('P05', 'Every surface obeys its heat balance and radiation in a room is conserved',
  'In each step the heat flowing into a surface equals convection from the room air, long-wave exchange with the '
  'area-and-coefficient-weighted mean surface temperature of the same room, its share of the room\'s transmitted solar heat (half of it, spread by area over the '
  'solar-absorbing surfaces; the other half goes to the furniture) and its share of the radiant system. '
  'Summed over the room, long-wave exchange cancels. The occupants\' radiant temperature is the view-factor-weighted mean of the surface temperatures and the '
  'operative temperature the transfer-coefficient-weighted mean of it and the air temperature.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [SEQ, PRE, C + 'shape_factor.py'],
  [('surface temperatures and flux', SEQ + ':run_tick'), ('surface matrices', PRE + ':make_pre_calc_parameters')],
  'logged surface temperatures, fluxes, mean radiant and operative temperatures',
  'model checking of one step from an arbitrary state; radiative coefficients taken from the run; tolerance 1e-3 W')
p('P06', 'Surface temperatures follow the element\'s conduction response',
  'The surface temperature at the end of a step is the response-factor sum of the new surface heat flow and rear temperature plus the decayed '
  'exponential terms of the whole history, each of which is carried to the next step exactly. The rear temperature is the outdoor-influence share of the '
  'sol-air temperature plus the stated share of the surface-equivalent temperature of the element on the other side.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [SEQ, PRE, 'heat_load_calc/initializer/response_factor.py'],
  [('exponential term update', SEQ + ':run_tick'), ('response factors per boundary', PRE + ':make_pre_calc_parameters')],
  'logged surface and rear temperatures, state handed to the next step',
  'model checking of one step from an arbitrary state; tolerance 1e-5 K; one recorded finding (partitions)')
p('P07', 'Loads bring the operative temperature exactly to the target and never overshoot',
  'A conditioned room (heating or cooling, no other room with open windows) whose demand-free operative temperature of the same step misses the target is brought to the '
  'target (with a demand fraction below one, that fraction of the way); if the target is met without conditioning there is no load. '
  'Heating loads are never negative, cooling loads never positive, and rooms without demand or outside heating and cooling modes have none.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [NXT, SEQ, C + 'ot_target_pmv.py'],
  [('load and temperature solution', NXT + ':calc_next_temp_and_load'), ('per-step use', SEQ + ':run_tick')],
  'logged loads, operative temperatures and modes',
  'model checking of one step from an arbitrary thermal state, twin demand-free step; one recorded finding (multi-room)')
p('P08', 'Radiant systems work first and never above their installed capacity',
  'With a radiant heating (cooling) system installed, its load never exceeds the installed maximum capacity, and convective heating '
  '(cooling) is used only for what remains after the radiant capacity is used up. A room without a radiant system for the current mode has no radiant load, '
  'whatever systems other rooms have.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [NXT, PRE],
  [('radiant/convective split', NXT + ':calc_next_temp_and_load'), ('installed equipment and capacities', PRE + ':make_pre_calc_parameters')],
  'logged convective and radiant loads',
  'model checking of one step from an arbitrary thermal state; buildings with radiant heating, radiant cooling, both')
p('P11', 'Cooling removes exactly the moisture its coil condenses and never adds any',
  'Moisture is only ever removed, and only in a step in which convective cooling equipment delivers sensible cooling. '
  'The removed moisture is what the coil condenses: the fan flow, interpolated between the equipment\'s minimum and maximum ratings by the sensible '
  'load, less one fifth bypass, leaves saturated at the coil temperature implied by that load. '
  'If the coil is not colder than the dew point of the room air without dehumidification, nothing is removed.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [C + 'heat_exchanger.py', SEQ],
  [('dehumidification coefficients', C + 'heat_exchanger.py:get_dehumid_coeff'), ('per-step use', SEQ + ':run_tick')],
  'logged latent and sensible loads, humidity ratio',
  'model checking of one step; coil outlet evaluated at concrete thermal states; 1 W tolerance on the coil equation')
p('P03', 'Air supplied from another room carries its heat and moisture into the room',
  'If a room receives air from another room at a given flow, its sensible and moisture balances over the step contain exactly that flow times the '
  'difference between the end-of-step temperature (humidity ratio) of the supplying room and its own. A room that receives none is unaffected.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [SEQ, PRE],
  [('inter-room ventilation terms', PRE + ':make_pre_calc_parameters'), ('per-step moisture matrices', SEQ + ':run_tick')],
  'logged temperatures, humidity ratios and loads',
  'model checking of one step from an arbitrary state; two recorded findings (sign of upstream heat, missing displaced moisture) pinned by formula')
p('P09', 'Operation mode follows demand, the previous mode and thermal sensation',
  'Without air-conditioning demand the mode is closed (a stop). With demand: heating continues while the sensation in winter clothing (1.1 clo) is at most +0.7, '
  'cooling while the sensation in summer clothing (0.3 clo) is at least -0.7, and when one of them ends the other starts if summer '
  'clothing is at least +0.7 (cooling) or winter clothing at most -0.7 (heating), else closed; from a stop the same start thresholds apply, else windows open when the sensation in '
  'middle clothing (0.7 clo) is above zero. Sensation is the PMV (1 met, still indoor air) at the start-of-step air temperature, humidity and occupant radiant temperature.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [C + 'ot_target_pmv.py', C + 'pmv.py', C + 'operation_mode.py', SEQ],
  [('mode decision', C + 'ot_target_pmv.py'), ('PMV', C + 'pmv.py')],
  'logged operation modes and the mode handed to the next step',
  'model checking of one step; previous modes enumerated, temperatures/humidity/demand symbolic; 1e-6 PMV tolerance at the switching points')
p('P10', 'Full conditioning ends the step at the thermal sensation target',
  'A conditioned room with full demand and a non-zero load ends the step at the operative temperature at which a seated occupant (1 met, air and radiant '
  'temperature equal, the room\'s humidity) has PMV -0.5 in 1.1 clo when heating and +0.5 in 0.3 clo when cooling. The logged remarks state that clothing, the '
  'target and the air speed (0 with a radiant system of that mode or closed, 0.2 m/s with convective, 0.1 m/s with open windows; 0.7 clo and target 0 when stopped).',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [C + 'ot_target_pmv.py', C + 'pmv.py', NXT],
  [('target operative temperature', C + 'ot_target_pmv.py'), ('load solution', NXT + ':calc_next_temp_and_load')],
  'logged operative temperatures, loads and remarks',
  'model checking of one step with full demand; humidity or thermal state symbolic; 1e-6 PMV tolerance')
p('P12', 'Occupants emit 119 W each, split by room temperature',
  'The heat of the occupants of a room is the number of occupants times 119 W in total. The sensible part per person is 159 - 4 T W (T: '
  'room air temperature at the start of the step) but at most 119 W, and the rest is emitted as moisture at the latent heat of 2501 kJ/kg.',
  ['inputs', 'histories'], STATES, WHY, [C + 'occupants.py', SEQ], [('occupant heat and moisture', C + 'occupants.py')],
  'logged occupant heat and moisture per room',
  'model checking of one step; temperature symbolic at enumerated occupant numbers and conversely')
p('P13', 'Infiltration follows the building leakage, height, pressure and temperature gap',
  'Every room has the same infiltration air change rate max(a C sqrt|dT| - b, 0) per hour, dT being the volume-weighted mean room '
  'temperature at the start of the step minus outdoor temperature, C the equivalent leakage area, a = 0.022 (0.020) for one (two) storeys and '
  'b = 0 for balanced, 0.26 (0.14) for positive and 0.28 (0.13) for negative pressure. The flow is never negative.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [C + 'infiltration.py', SEQ], [('infiltration', C + 'infiltration.py')],
  'logged infiltration flow per room',
  'model checking of one step; square root handled as a constrained solver variable, compared through squares')
p('P15', 'Results do not depend on the order in which rooms and boundaries are listed',
  'Listing the rooms and boundaries of the same building in another order (with all references adjusted) gives every room and every '
  'boundary the same temperatures, humidity, modes, loads and heat flows. This holds also if the boundaries of a room are not listed next to each other.',
  ['inputs', 'configurations', 'histories'], STATES, WHY, [PRE, C + 'shape_factor.py', SEQ, NXT],
  [('room/boundary incidence', PRE + ':make_pre_calc_parameters'), ('view factors per room', C + 'shape_factor.py')],
  'logged results of one step for both listings',
  'relational model checking (two runs of the real code) over one step; enumerated reorderings, symbolic state and inputs')
p('P04', 'A building in equilibrium with its surroundings stays in equilibrium',
  'If rooms, furniture, surfaces, element history, outdoor air and sol-air temperatures all share one temperature and indoor and outdoor humidity are equal, and there are no '
  'gains, occupants, sun or air-conditioning demand, every later step keeps all temperatures and humidities unchanged, all heat flows zero and all loads zero. '
  'This holds whatever the construction, ventilation, infiltration and previous operation mode.',
  ['inputs', 'configurations', 'histories'], 'every common temperature and humidity, in buildings of several shapes, over several steps', WHY, [SEQ, PRE, NXT],
  [('step', SEQ + ':run_tick')], 'logged temperatures, humidities, heat flows, loads',
  'model checking of 3 (8) consecutive steps; symbolic temperature and humidity; 1e-3 K tolerance')
RF = 'heat_load_calc/initializer/response_factor.py'
p('P16', 'Element responses fit exact conduction and keep the element\'s steady state',
  'For every construction the transmission response of the element sums to one and the absorption response to its whole resistance: layers plus outside '
  'resistance (plus 3 m of soil, 3 m2K/W, for ground; 1/U less the inside resistance, without storage, if given by a U-value), with decay factors exp(-alpha 900 s) of the fixed roots. '
  'For layered elements the terms are the least-squares fit, at the fixed Laplace sample points, of the exact multi-layer conduction solution, and asking again gives the same result.',
  ['inputs', 'configurations'], 'every layer resistance and heat capacity, outside resistance and U-value within bounds, several layer sequences',
  'Tests compare a few constructions with stored coefficients; they cannot show that the steady state and the fit are kept for every layer.', [RF],
  [('response factors', RF + ':ResponseFactorFactory')], 'get_response_factors()',
  'symbolic execution with symbolic resistances/capacities; hyperbolic functions uninterpreted within ranges; 1e-6 (fit: 1e-5)')
p('P17', 'Result tables report each step\'s inputs and results and hourly summaries of them',
  'Row n of the detailed table (15-minute rows from 1 January 0:00) holds the inputs and results of step n of the main run, consistent with each other (heat flows of '
  'surfaces and furniture, operative temperature, humidity, occupants). The digest holds for every hour the mean of its four rows (temperatures 2, room humidity ratio 4 decimals), the sum of '
  'the four load values (whole numbers) and the mode of its first row. Result files are written only when asked for and hold the same tables.',
  ['inputs', 'histories'], 'every value of selected rows of weather, gains and solar, in runs with and without conditioning, buildings of several shapes',
  'A test sees one stored annual digest; wrong rows, units, column mix-ups or off-by-one slots appear only for particular inputs.', [LOG, C + 'core.py', C + 'period.py', SEQ],
  [('log and digest', LOG + ':record'), ('post-processing', LOG + ':Logger.post_logging'), ('main loop', C + 'core.py:calc')], 'returned tables and csv files',
  'model checking of whole one-day runs (96 steps) with some symbolic rows; other rows fixed')
p('P18', 'Run-ups replay the days before the start and hand their state over unchanged',
  'The whole-building run-up gives the same results as the same days (taken from the end of the data) put at the head of the main run, starting from 15 C everywhere, '
  'the humidity of 20 C and 40 %, closed windows and no element history. During the earlier, ground-only run-up the surface of each ground element follows outdoor air '
  'with its own surface coefficient and the annual mean outdoor temperature behind it, and that response is continued, not restarted, in the building calculation.',
  ['inputs', 'histories', 'configurations'], 'every value of selected rows, 0-3 run-up days, buildings of several shapes including ground slabs',
  'A test sees one annual run with one set of run-up lengths; it cannot compare runs with each other.', [C + 'core.py', C + 'conditions.py', C + 'sequence_ground.py', C + 'period.py', SEQ],
  [('run-up loops', C + 'core.py:calc'), ('handover', C + 'conditions.py:update_conditions_by_ground_conditions'), ('ground step', C + 'sequence_ground.py:run_tick')],
  'returned detailed tables of runs of different length',
  'relational model checking of whole runs (96-384 steps) with symbolic rows; reference recursion for ground elements')
