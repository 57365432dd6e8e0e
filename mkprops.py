"""Development helper: writes properties.jsonl (kept so that the statements have one source)."""
import json

S = 'src/sunwhere/'
LIB = [S + 'libspa/' + f for f in ('ne_nrel.py', 'ne_psa.py', 'py_psa.py', 'ne_soltrack.py', 'py_soltrack.py', 'ne_iqbal.py', 'py_iqbal.py')]
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files[:3])) for m in mech])))


prop('C01', 'The three use cases compute the same sun position',
     'For the same instant and place, sites(), regular_grid() and transect() give the same zenith, azimuth, ecf, '
     'eot and declination, for every algorithm, engine and refraction setting and for any number of times and places. '
     'No result depends on which other times or places are in the same call, nor on their number or order.',
     ['inputs', 'configurations'],
     'all times, latitudes, longitudes, array lengths (including 1 and equal lengths), algorithms, engines and refraction settings',
     'The tests compare with tolerances of degrees, use a 1x1 grid, and never compare one use case with another.',
     [S + 'usecases.py', S + '_core.py'] + LIB,
     ['_sunpos_one_dimensional / _sunpos_two_dimensional / _sunpos_three_dimensional in every libspa module', 'reshape in _core.evaluate'])

prop('C02', 'The numpy and numexpr engines agree',
     'Where an algorithm is offered with both engines, the two engines give the same zenith, azimuth, ecf, eot and declination '
     'for every instant and place, in every use case, with and without refraction, up to floating-point rounding.',
     ['inputs', 'configurations'],
     'all instants and places; psa, soltrack and iqbal; three use cases; refraction on and off',
     'The tests check each engine on a few sites against a reference with tolerances orders of magnitude larger than the agreement promised.',
     LIB, ['ne_psa vs py_psa', 'ne_soltrack vs py_soltrack', 'ne_iqbal vs py_iqbal', '__ALGORITHMS__ in _core.py'])

prop('C03', 'Results are laid out by time, location, latitude and longitude as documented',
     'ecf, eot and declination depend on time only and have dimension (time,). '
     'zenith, azimuth, elevation and cosz have dimensions (time, location) for sites(), (time, latitude, longitude) for regular_grid() '
     'and (time,) for transect(), and each element is the value for the instant and place its coordinates name. '
     'The time, latitude and longitude coordinates carry the values the caller passed, in the order passed.',
     ['inputs', 'configurations'],
     'all use cases and all array sizes, including sizes that coincide (as many times as sites, square grids)',
     'Transposed or mis-sliced axes are invisible to tests that use one location, a 1x1 grid or loose tolerances.',
     [S + '_base.py', S + '_core.py', S + 'usecases.py'],
     ['Sunpos.__init__ DataArray construction', 'evaluate.reshape', 'evaluate'])

prop('C04', 'algorithm "nrel" computes the NREL SPA',
     'With algorithm "nrel" and no refraction, zenith, azimuth, declination, equation of time and earth-sun distance correction are those '
     'of the published NREL Solar Position Algorithm (Reda and Andreas: heliocentric periodic terms, nutation, aberration, obliquity, '
     'apparent sidereal time, topocentric parallax) at sea level with a constant delta-T of 67 s, for every instant and place. '
     'The azimuth is zero at south, negative towards east and positive towards west.',
     ['inputs'], 'all instants 1900-2100 and all places; the three use cases',
     'The tests accept 2 degrees of zenith error and practically do not test the azimuth; a wrong coefficient in a table of 200 terms passes.',
     [S + 'libspa/ne_nrel.py'], ['time_dependent_calculations', 'earth periodic term tables', '_sunpos_*_dimensional'])

prop('C05', 'algorithm "psa" computes the PSA+ algorithm',
     'With algorithm "psa" and no refraction, zenith, azimuth and declination are those of the published PSA+ algorithm '
     '(Blanco et al. 2020: its 15 coefficients, parallax correction included), ecf is the inverse square of the SolTrack distance formula and eot the '
     'mean longitude minus right ascension, for every instant and place and both engines. '
     'The azimuth is zero at south, negative towards east and positive towards west.',
     ['inputs'], 'all instants and all places; both engines; the three use cases',
     'The tests accept 2 degrees of zenith error and 10 minutes of equation of time.',
     [S + 'libspa/ne_psa.py', S + 'libspa/py_psa.py'], ['time_dependent_calculations', '_sunpos_*_dimensional'])

prop('C06', 'algorithm "soltrack" computes the SolTrack algorithm',
     'With algorithm "soltrack" and no refraction, zenith, azimuth, declination, earth-sun distance correction and equation of time '
     'are those of the published SolTrack algorithm (van der Sluys et al. 2022; its distance and its mean longitude minus right ascension) for every instant '
     'and place and both engines. The azimuth is zero at south, negative towards east and positive towards west.',
     ['inputs'], 'all instants and all places; both engines; the three use cases',
     'The tests accept 2 degrees of zenith error and 10 minutes of equation of time.',
     [S + 'libspa/ne_soltrack.py', S + 'libspa/py_soltrack.py'], ['time_dependent_calculations', '_sunpos_*_dimensional'])

prop('C07', 'algorithm "iqbal" computes Iqbal\'s formulas',
     'With algorithm "iqbal" and no refraction, declination is Spencer\'s Fourier series of the day angle, ecf and eot are its refitted Fourier series '
     '(sines and cosines of the day angle and its multiples), and the day number is that of the UTC calendar day, leap years included. '
     'zenith and azimuth follow from the hour angle of true solar time for every instant and place and both engines; '
     'the azimuth is zero at south, negative in the morning and positive in the afternoon.',
     ['inputs'], 'all instants (every calendar day, leap and common years) and all places; both engines; the three use cases',
     'The tests sample a few days and accept 2 degrees of zenith error and 10 minutes of equation of time.',
     [S + 'libspa/ne_iqbal.py', S + 'libspa/py_iqbal.py'], ['time_dependent_calculations', '_sunpos_*_dimensional'])

prop('C08', 'Every valid input gives finite values in the documented ranges',
     'For valid times and coordinates (poles, equator, sun at zenith or nadir included) zenith, azimuth, declination, ecf and eot are never NaN or '
     'infinite; zenith is in [0, 180], azimuth in [-180, 180], declination in [-90, 90], and eot within half an hour of zero, '
     'for every algorithm, engine and use case, with and without refraction.',
     ['inputs', 'configurations'],
     'all instants 1900-2100, all latitudes in [-90, 90], all longitudes in [-180, 180)',
     'The offending inputs are isolated points (sun exactly overhead, a pole, a singular refraction angle) that no sampled test hits.',
     LIB, ['arccos/arcsin arguments in every zenith computation', 'refraction corrections', 'wrap of the equation of time'])

prop('C09', 'The refraction flag is honoured and touches the zenith only',
     'refraction=True gives, in every use case, algorithm and engine, the zenith diminished by that algorithm\'s published refraction correction '
     'of the geometric elevation (psa, soltrack and nrel: none below the horizon\'s vicinity, -0.83 degrees; pressure 1013.25 hPa and 12 C in nrel; iqbal: '
     'result limited to [0, 180]), and refraction=False the geometric zenith; azimuth, ecf, eot and declination are the same in both cases. '
     'has_refraction tells which of the two was computed.',
     ['inputs', 'configurations'],
     'all inputs, algorithms, engines and use cases, with the flag on, off and left to its default',
     'No test computes with refraction.',
     [S + '_core.py', S + 'usecases.py'] + LIB, ['with_refraction in every libspa module', 'refraction parameter of the use cases'])

prop('C10', 'Times denote instants: naive is UTC, aware is converted, none is truncated',
     'Two calls whose times denote the same instants give the same sun position, whether the times are naive UTC or carry a time zone '
     'of any kind (fixed offset or named zone), and whether they come as a DatetimeIndex, a datetime64 array, a list of datetimes or '
     'timestamps, or a scalar. '
     'The position is that of the instant given truncated to whole seconds or better, with no further loss of precision of the time in the computations.',
     ['inputs', 'configurations'],
     'all instants, time zones and input containers; all algorithms, engines and use cases',
     'The tests pass naive UTC DatetimeIndex values only.',
     [S + 'usecases.py', S + '_core.py', S + '_base.py'] + LIB, ['pd.to_datetime(times, utc=True)', 'times.astype in evaluate', 'unixtime dtype in sunpos()'])

prop('C11', 'times, times_utc, timezone and coordinates of the result reflect the input',
     'The result\'s times are the caller\'s times unchanged (same instants, same wall clock, same zone), times_utc are the same instants '
     'in UTC (time zone aware), and timezone names the caller\'s time zone, or UTC for naive input. latitude and longitude are the caller\'s values, and '
     'algorithm, engine, usecase and has_refraction are those of the call.',
     ['inputs', 'configurations'],
     'all instants, naive or aware with any kind of time zone (pytz, zoneinfo, datetime.timezone, fixed offsets), daylight-saving folds included',
     'The tests never pass aware times and never read these attributes.',
     [S + '_base.py', S + 'usecases.py'], ['Sunpos.__init__', 'Sunpos.times_utc', 'Sunpos.timezone'])

prop('C12', 'Invalid input is refused with ValueError, valid input is accepted',
     'An unknown algorithm or engine, an engine the algorithm does not have, a latitude outside [-90, 90], a longitude below -180 or above 180, arrays of '
     'more than one dimension, latitudes and longitudes of different lengths in sites(), or times, latitudes and longitudes of different lengths in transect() '
     'raise ValueError before any result is produced. Every other combination of sizes, and every latitude in [-90, 90] and longitude in [-180, 180), is accepted.',
     ['inputs', 'configurations'], 'all coordinates, array shapes and lengths, algorithm and engine names',
     'The tests never pass invalid input, and accept only a handful of valid places.',
     [S + 'usecases.py', S + '_core.py', S + 'utils/validate.py'],
     ['validate.check_dimensions', 'validate.check_timelatlon', 'evaluate'])

prop('C13', 'NaT times give NaN results in their place and disturb nothing else',
     'When some of the times are NaT, every result is NaN at exactly those times, and at all other times equals what is computed without the NaT '
     'entries, in every use case, algorithm and engine.',
     ['inputs', 'configurations'], 'all positions and numbers of NaT entries, all array sizes, all algorithms, engines and use cases',
     'No test passes NaT.',
     [S + '_core.py'], ['nonat mask and reshape in evaluate'])

prop('C14', 'Every advertised algorithm and engine works, and is the one that is run',
     'Every name in SPA_ALGORITHMS can be computed with each engine it is offered with, in each use case, with refraction on and off; the algorithm and engine '
     'asked for are the ones that are run, the defaults being "psa", "numexpr" and refraction on. '
     'Each returns the five quantities zenith, azimuth, ecf, eot and declination in the same units (degrees; minutes for eot).',
     ['configurations'], 'all algorithms x engines x use cases x refraction settings',
     'The tests cover some combinations with tolerances that a swapped algorithm or engine meets.',
     [S + '_core.py', S + '__init__.py', S + 'usecases.py'] + LIB, ['__ALGORITHMS__', 'sunpos() of every libspa module'])

prop('C15', 'Derived quantities follow from zenith, azimuth and declination',
     'elevation is 90 minus zenith, cosz is the cosine of zenith, and the aliases sza, saa and dec equal zenith, azimuth and declination, '
     'in every use case; angles are in degrees. All of them refer to the same times and places as the quantity they are derived from.',
     ['inputs', 'configurations'], 'all results in all use cases',
     'The tests do not read elevation, cosz or the aliases.',
     [S + '_base.py'], ['Sunpos.elevation', 'Sunpos.cosz', 'Sunpos.sza', 'Sunpos.saa', 'Sunpos.dec'])

prop('C16', 'sunrise, sunset and daylight length are consistent in every unit',
     'sunrise() is the hour angle arccos(-tan(latitude) tan(declination)) (positive in the morning) and sunset() its opposite in degrees and radians; as clock times '
     'they are the true solar, UTC and local (zone of the input times) times of those hour angles on the day of the true solar time. '
     'daylight_length() is the hours from sunrise to sunset; in polar day and polar night all of them are missing values, and an unknown unit raises ValueError.',
     ['inputs', 'configurations'], 'all results, all units, all use cases, all latitudes and days',
     'No test calls these methods.',
     [S + '_base.py'], ['Sunpos.sunrise', 'Sunpos.sunset', 'Sunpos.daylight_length'])

prop('C17', 'True solar time and its inverse are right for every instant and longitude',
     'true_solar_time is UTC plus 4 minutes per degree of longitude plus the equation of time, for every time and place of the result, and '
     'local_standard_time is the caller\'s times. The helper functions true_solar_time() and universal_time_coordinated() of sunwhere.utils.datetime apply the same relation '
     'forwards and backwards, with the equation of time at the instants given, for every pair of time and longitude.',
     ['inputs', 'configurations'], 'all instants, longitudes, time zones and use cases',
     'No test reads true solar time or calls universal_time_coordinated.',
     [S + '_base.py', S + 'utils/datetime.py'], ['Sunpos.true_solar_time', 'utils.datetime.universal_time_coordinated'])

prop('C18', 'eth() is the extraterrestrial horizontal irradiance',
     'eth() is ISC * ecf * max(0, cos(zenith)) with the solar constant ISC the caller gives (1361.1 W/m2 by default), hence never negative and zero with the sun below the '
     'horizon; with an air-mass correction it is that value times the named model\'s published factor, and an unknown correction name raises ValueError.',
     ['inputs', 'configurations'], 'all results, all use cases, all corrections and solar constants',
     'No test calls eth().',
     [S + '_base.py'], ['Sunpos.eth'])

prop('C19', 'airmass() implements the published formulas and is undefined at night',
     'airmass() gives the relative optical air mass of the named published formula (Kasten 1965, Kasten and Young 1989, Gueymard 2001 and 2003) for the sun above the horizon, '
     'never below 1, and a missing value for zenith angles beyond 90 degrees; an unknown name raises ValueError.',
     ['inputs', 'configurations'], 'all results, all use cases, the four formulas',
     'No test calls airmass().',
     [S + '_base.py'], ['Sunpos.airmass'])

prop('C20', 'incidence() is the cosine of the angle between sun and surface normal',
     'incidence(slope, azimuth) is the cosine of the angle between the direction to the sun, given by latitude, declination and the hour angle of the true solar time, and the '
     'normal of the surface (slope from the horizontal, azimuth zero at south and positive towards east), for every time and place of the result, negative values included.',
     ['inputs', 'configurations'], 'all results, all use cases, all slopes and surface azimuths',
     'No test calls incidence().',
     [S + '_base.py'], ['Sunpos.incidence'])

prop('C21', 'Calls have no side effects on inputs, results or later calls',
     'No function changes the arrays or sequences the caller passes, reading an attribute or calling a method of a result never changes any '
     'other attribute of it (nor its own value when read again), and no call changes state that later calls read. '
     'A result does not share storage with the arrays passed in.',
     ['inputs', 'histories'], 'all sequences of calls and accesses, all inputs',
     'A test would need to compare every attribute before and after every access in every order.',
     [S + '_base.py', S + '_core.py', S + 'usecases.py'] + LIB, ['Sunpos accessors', 'in-place operations in libspa', 'module-level state'])

prop('C22', 'The command line computes the position for the given place, time and options',
     'The "at" command prints, for the place, time, time zone, algorithm and refraction options given, exactly the values that the library computes for them (the equation of time as minutes and seconds below 60); '
     '"now" and naive times are understood in the given time zone, latitudes and longitudes accept hemisphere suffixes with the right sign, and out-of-range or malformed places are refused. '
     'It works for every place and day, polar day and night included (sunrise and sunset are then shown as missing).',
     ['inputs', 'configurations'], 'all places, times, time zones and options',
     'No test runs the command line.',
     [S + '_cli/main.py', S + '_cli/position.py'], ['at', 'parse_latitude', 'parse_longitude', 'calculate_position'])

prop('C23', 'The JPL Horizons reader returns the columns the file holds',
     'load_jpl_ephemeris() and the reader beneath it return a table with one row per ephemeris line, indexed by its instant in UTC, with each column holding the '
     'quantity it is named after, and leave no file open; a file without both marks of its table or with a line that is not an entry is refused with an '
     'exception, not read in part. What is downloaded for a month is the ephemeris of that month at the given site, and what earlier calls '
     '(completed or interrupted) left on the disk is used for their own year and site only.',
     ['inputs', 'fault_sequences', 'histories'], 'all ephemeris files in the format of JPL Horizons, any subset of the months already on disk, any earlier calls',
     'No test reads an ephemeris through the public loader.',
     [S + 'utils/jpl_horizons.py'], ['load_jpl_ephemeris', 'read_jpl'])

prop('C24', 'NREL results are within 0.0003 degrees of the true ephemeris',
     'With algorithm "nrel" the zenith and azimuth differ from the true apparent position of the sun by no more than 0.0003 degrees between the years -2000 and 6000.',
     ['inputs'], 'all instants between -2000 and 6000 and all places',
     'It needs a reference ephemeris for every instant.',
     [S + 'libspa/ne_nrel.py'], ['time_dependent_calculations'])

prop('C25', 'The numexpr engine is faster than the numpy engine on large problems',
     'For large numbers of times or places the numexpr engine takes less time than the numpy engine.',
     ['inputs', 'configurations'], 'all large problem sizes', 'Timing is not tested.',
     [S + 'libspa/ne_psa.py', S + 'libspa/py_psa.py'], ['numexpr.evaluate calls'])

prop('C26', 'Without times, places or valid times results are empty or missing, not errors',
     'sites(), regular_grid() and transect() accept no times, no places, and times none of which is valid (NaT) with every algorithm and engine: no exception is raised, '
     'zenith, azimuth, ecf, eot, declination and every derived quantity have the sizes given (zero included), and what belongs to a missing time or (if all latitudes and longitudes are NaN) a missing place is missing.',
     ['inputs', 'configurations'], 'all use cases, algorithms and engines, any of the sizes zero, any number of times all missing',
     'No test passes an empty sequence or only missing times.',
     [S + '_core.py', S + 'usecases.py', S + 'libspa/ne_nrel.py'], ['evaluate', 'time_dependent_calculations'])

prop('C27', 'Missing latitudes or longitudes give missing results there and nowhere else',
     'When some latitudes or longitudes are NaN, no exception is raised; zenith, azimuth and whatever derives from them, and whatever else depends on a missing latitude (sunrise, sunset, '
     'daylight length, incidence) or longitude (true solar time, sunrise and sunset as times, incidence) are missing at those places; and everything else (ecf, eot, declination, the other '
     'places) is what it is without them.',
     ['inputs', 'configurations'], 'all positions and numbers of NaN latitudes or longitudes, all array sizes, algorithms, engines, use cases and time zones',
     'No test passes NaN.',
     [S + '_core.py', S + '_base.py', S + 'utils/validate.py'], ['check_timelatlon', 'Sunpos.incidence'])

prop('C28', 'Results say truly what they hold: name, units, description and range',
     'Every array that a result gives (quantities, aliases and methods, in every unit) is named after the quantity it holds, carries its units (for sunrise and sunset those asked for, '
     'the local time zone included) and has no description or range that is false of it. This holds in whatever order attributes and methods are used.',
     ['histories', 'configurations'], 'all orders of reading, use cases, algorithms, engines, units and time zones',
     'No test looks at the names or attributes of results.',
     [S + '_base.py'], ['Sunpos accessors', 'rename(...).assign_attrs(...)'])

prop('C29', 'Calls made at the same time from several threads do not disturb each other',
     'sites(), regular_grid(), transect() and the time conversions give, when called from several threads at once with different arguments, what they give when called alone; and the attributes '
     'and methods of one result can be read from several threads at once.',
     ['schedules', 'inputs'], 'all interleavings of any calls with any arguments',
     'No test uses threads, and one that did would see a few of the interleavings.',
     [S + '_core.py', S + 'usecases.py', S + '_base.py', S + 'utils/datetime.py'], ['module-level state', 'class attributes', 'attributes of results'])

prop('C30', 'Latitudes and longitudes may be numbers of any type, in any container',
     'The same latitudes and longitudes give the same results (quantities, derived quantities, time conversions of sunwhere.utils.datetime) whether they are integers or floating-point '
     'numbers of any width, in an array, list, tuple, pandas Series or xarray DataArray, or a scalar for one place, up to the precision of the type given: nothing wraps around in a narrow '
     'integer type.',
     ['inputs', 'configurations'], 'all values of each numeric type, all sizes, containers, use cases, algorithms and engines',
     'Tests pass float64 arrays and lists only.',
     [S + 'usecases.py', S + '_base.py', S + 'utils/datetime.py', S + 'utils/validate.py'], ['sites', 'regular_grid', 'transect', 'true_solar_time', 'universal_time_coordinated'])

prop('C31', 'The library runs with the versions of Python and the packages that it declares',
     'On every version of Python from the oldest that it declares (3.11), with no package installed other than its dependencies (numpy, pandas, xarray, numexpr, loguru) and what '
     'these require, sunwhere can be imported, every use case works with every algorithm and engine, every attribute and method of the results can be used, and so can the time '
     'conversions; `sunwhere at` needs only the packages of the extra "cli" besides.',
     ['configurations', 'histories'], 'all declared versions of Python, all calls, methods and options',
     'Tests run in one environment, with one version of Python and many packages that users do not have; an import that fails in an algorithm is swallowed when the package is imported.',
     ['pyproject.toml', S + '__init__.py', S + '_core.py', S + '_base.py', S + 'libspa', S + '_cli/main.py'], ['import statements', 'safe_import', 'requires-python', 'dependencies'])

prop('C32', 'The library leaves the rest of the process as it was',
     'Importing sunwhere, calling sites(), regular_grid(), transect() and the time conversions, and using the attributes and methods of results, whether they succeed or raise, leave no setting '
     'changed outside the package (error handling and print options of numpy, options of pandas and xarray, threads of numexpr, warning filters, outputs of the log, locale, environment variables, '
     'working directory, random seeds, attributes of other packages), print nothing on the terminal, and use no files and no network.',
     ['histories', 'inputs'], 'all calls, readings, refused calls and their sequences, use cases, algorithms and engines',
     'Tests look at the values returned; a setting left behind shows in the code of the caller.',
     [S + '__init__.py', S + '_core.py', S + '_base.py', S + 'usecases.py', S + 'libspa', S + 'utils/datetime.py'], ['import of the package', 'evaluate', 'Sunpos accessors', 'logger.disable'])

prop('C33', 'Memory grows in proportion to the results',
     'sites(), regular_grid() and transect(), with every algorithm and engine, the attributes and methods of results, and the time conversions build no array '
     'larger than a fixed multiple of the largest of their arguments and results: a transect of K times needs memory in proportion to K (not to its square), sites() to the number of times multiplied by the number of '
     'places, and regular_grid() to the number of times, latitudes and longitudes multiplied.',
     ['inputs', 'configurations'], 'all numbers of times and places, containers, use cases, algorithms, engines, attributes and methods',
     'Tests use a few times and places, with which an array of the square of their number goes unnoticed.',
     [S + '_core.py', S + '_base.py', S + 'usecases.py', S + 'libspa', S + 'utils/datetime.py'], ['evaluate', '_sunpos_one_dimensional', '_sunpos_two_dimensional', 'Sunpos accessors'])

prop('C34', 'Results can be copied, and pickled to send them to other processes',
     'The result of sites(), regular_grid() or transect(), for every algorithm, engine and time zone, can be pickled, and copied with copy.copy() and copy.deepcopy(), both right after the '
     'call and after its attributes and methods have been used; every attribute and method of the copy (in another process, for pickles) gives what the original gives; a deep copy shares no '
     'data with the original; and what the attributes and methods return can be pickled too.',
     ['histories', 'configurations'], 'all results, attributes and methods used before and after, time zones, use cases, algorithms and engines',
     'No test copies or pickles a result.',
     [S + '_base.py', S + 'usecases.py'], ['Sunpos', 'attributes of results', 'attributes of DataArrays'])

prop('C35', 'Functions and methods are called as documented',
     'sites(), regular_grid(), transect(), the time conversions and the methods of results take the documented arguments by position, in the documented order, and by name, with the same '
     'result, and with the documented default where they are omitted; an argument of another name is refused with TypeError; the documented names exist in the package, in __all__ '
     '(and every name of __all__ exists) and in results.',
     ['inputs', 'configurations'], 'all ways of passing the arguments of every function and method, all documented values of the options',
     'Tests call each function in one way or two.',
     [S + 'usecases.py', S + '_base.py', S + 'utils/datetime.py', S + '__init__.py'], ['sites', 'regular_grid', 'transect', 'Sunpos methods', '__all__'])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
