"""Other ways of writing the same: context managers, loops over products, operators as functions, series by table (seventh set)."""
from refac6 import doc, fn, sub

EDITS = []


def edit(id, *edits):
    EDITS.append(dict(id=id, edits=list(edits)))


B, C, V, U, D = '_base.py', '_core.py', 'utils/validate.py', 'usecases.py', 'utils/datetime.py'
PP, PS, PI_ = 'libspa/py_psa.py', 'libspa/py_soltrack.py', 'libspa/py_iqbal.py'
NS, NN, NI, NP = 'libspa/ne_soltrack.py', 'libspa/ne_nrel.py', 'libspa/ne_iqbal.py', 'libspa/ne_psa.py'

# a context manager around the call of the algorithm, and as a decorator
edit('core-context',
     (C, "import numpy as np\nfrom loguru import logger\n", "from contextlib import contextmanager\n\nimport numpy as np\nfrom loguru import logger\n"),
     (C, "logger.disable(__name__)\n", '''logger.disable(__name__)


@contextmanager
def reported(what):
    logger.debug(f'running simulation with funtion {what}')
    try:
        yield what
    except Exception:
        logger.debug('the simulation failed')
        raise
    finally:
        logger.debug('done')
'''),
     (C, '''    logger.debug(f'running simulation with funtion {namespace}')
    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
''', '''    with reported(namespace):
        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
'''))

edit('validate-context',
     (V, "import numpy as np\nimport pandas as pd\n", '''from contextlib import ExitStack, contextmanager

import numpy as np
import pandas as pd


@contextmanager
def _named(what):
    try:
        yield
    except OverflowError as exc:
        raise ValueError(f'{what}: {exc}') from exc
'''),
     (V, '''    longitude = np.array(longitude, ndmin=1, dtype=dtype)
    if longitude.ndim > 1:''', '''    with _named('longitude'), ExitStack() as stack:
        stack.callback(len, ())
        longitude = np.array(longitude, ndmin=1, dtype=dtype)
    if longitude.ndim > 1:'''),
     (V, '''    latitude = np.array(latitude, ndmin=1, dtype=dtype)
    if latitude.ndim > 1:''', '''    with _named('latitude'):
        latitude = np.array(latitude, ndmin=1, dtype=dtype)
    if latitude.ndim > 1:'''))

edit('usecases-decorated',
     (U, "import numpy as np\n", "from contextlib import contextmanager\n\nimport numpy as np\n"),
     (U, "def sites(times,", '''@contextmanager
def _case(name):
    """What every use case does around its calculations."""
    yield name


@_case('sites')
def sites(times,'''),
     (U, "def transect(times,", "@_case('transect')\ndef transect(times,"))

# loops over the cells
t = fn(PP, '_sunpos_three_dimensional')
edit('psa-ndindex', (PP, t, sub(t, ('''    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)
    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)
''', '''    for j, i in np.ndindex(Ny, Nx):
        angle = np.arctan2(-sinhour[:, 0, i], tandec[:, 0, 0]*coslat[0, j, 0] - sinlat[0, j, 0]*coshour[:, 0, i])
        azimuth[:, j, i] = np.where(angle < 0., angle + PI, angle - PI)
'''))))
t = fn(PS, '_sunpos_two_dimensional')
edit('soltrack-product', (PS, "import numpy as np\n", "from itertools import product\n\nimport numpy as np\n"),
     (PS, t, t.replace("    # zenith, in radians; azimuth", '''    cells = np.empty(zenith.shape)
    for k, j in product(range(zenith.shape[0]), range(zenith.shape[1])):
        cells[k, j] = zenith[k, j]
    zenith = cells

    # zenith, in radians; azimuth''')))
t = fn(PI_, '_sunpos_two_dimensional')
edit('iqbal-enumerate', (PI_, t, t.replace("    eot = eot * 60  # minutes\n", '''    minutes = np.zeros_like(eot)
    for (k,), hours in np.ndenumerate(eot):
        minutes[k] = hours * 60
    eot = minutes
''')))

# tables of coefficients
edit('iqbal-table', (PI_, fn(PI_, 'solar_declination'), '''DECLINATION = ((0.006918, 0.), (-0.399912, 0.070257), (-0.006758, 0.000907), (-0.002697, 0.001480))


def solar_declination(dayangl):
    # sun declination, radians, Eq (1.3.1), Iqbal
    total = 0.
    for k, (a, b) in enumerate(DECLINATION):
        total = total + a*np.cos(k*dayangl) + b*np.sin(k*dayangl)
    return total
'''))
edit('iqbal-zip', (PI_, "import numpy as np\n", "from functools import reduce\nfrom itertools import count\nfrom operator import add\n\nimport numpy as np\n"),
     (PI_, fn(PI_, 'equation_of_time'), '''def equation_of_time(dayangl):
    # equation of time, hours, refit to match NREL's eot
    cosines = (0.58688718, -3.31493999, -0.08151750, -0.13532889)
    sines = (-7.34538133, -9.35366541, -0.30892409, -0.17336220)
    terms = (a*np.cos(k*dayangl) + b*np.sin(k*dayangl) for k, a, b in zip(count(1), cosines, sines))
    return reduce(add, terms, 0.00986571)/60.
'''))
edit('iqbal-vander', (PI_, fn(PI_, 'eccentricity_correction_factor'), '''def eccentricity_correction_factor(dayangl):
    # refit to match NREL's ecf (Sep 2021)
    k = np.arange(1, 4)
    angles = np.multiply.outer(dayangl, k)
    a = np.array([3.33572253e-02, 6.97434604e-04, 1.74028675e-05])
    b = np.array([1.99417932e-03, 1.14828177e-04, 1.13778023e-05])
    return 1.00012825e+00 + np.cos(angles) @ a + np.sin(angles) @ b
'''))
t = fn(NN, 'time_dependent_calculations')
edit('nrel-horner', (NN, t, sub(t, ('''    epsilon0 = nex(
        '84381.448 - 4680.93*(jme/10.) - 1.55*(jme/10.)**2 + 1999.25*(jme/10.)**3 - '
        '51.38*(jme/10.)**4 - 249.67*(jme/10.)**5 - 39.05*(jme/10.)**6 + 7.12*(jme/10.)**7 + '
        '27.87*(jme/10.)**8 + 5.79*(jme/10.)**9 + 2.45*(jme/10.)**10')
''', '''    u10 = jme/10.
    epsilon0 = np.zeros_like(u10)
    for coef in (2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448):
        epsilon0 *= u10
        epsilon0 += coef
'''), ('''    x1_ = x1[None, :]
''', '''    x1_ = np.expand_dims(x1, 0)
'''))))
edit('nrel-polyval', (NN, t, sub(t, ("    x0 = nex('297.85036 + 445267.111480*jce - 0.0019142*jce**2 + jce**3 / 189474')\n",
                                       "    x0 = np.polyval([1/189474, -0.0019142, 445267.111480, 297.85036], jce)\n"),
                                      ("    x4 = nex('125.04452 - 1934.136261*jce + 0.0020708*jce**2 + jce**3 / 450000')\n",
                                       "    x4 = np.polynomial.Polynomial([125.04452, -1934.136261, 0.0020708, 1/450000])(jce)\n"))))
# operators and methods by name
t = fn(B, 'airmass')
i = t.index("        if parameterization == 'kasten_1965'")
edit('airmass-match', (B, t, t[:i] + '''        match parameterization:
            case 'kasten_1965':
                limit, a, b, c = 93.885, 0.15, 0., 1.253
            case 'kasten_and_young_1989':
                limit, a, b, c = 96.07995, 0.50572, 0., 1.6364
            case 'gueymard_2001':
                limit, a, b, c = 96.4836, 0.45665, 0.07, 1.697
            case 'gueymard_2003':
                limit, a, b, c = 96.741, 0.48353, 0.095846, 1.754
            case _:
                raise ValueError(
                    f'unknown airmass parameterization {parameterization}')

        sza = self.sza
        day = sza <= 90.
        slant = a * np.maximum(1e-4, limit - sza)**-c
        if b:
            slant = slant * sza**b
        am = (self.cosz + slant).where(day)**-1
        return am.clip(min=1.).rename('airmass').assign_attrs(
            units='-',
            description='relative optical air mass'
        )
'''))
edit('base-methodcaller', (B, "import numpy as np\n", "from operator import attrgetter, methodcaller\n\nimport numpy as np\n"),
     (B, "        return self.zenith.rename('sza')\n", "        return methodcaller('rename', 'sza')(self.zenith)\n"),
     (B, "        return self.azimuth.rename('saa')\n", "        return methodcaller('rename', 'saa')(attrgetter('azimuth')(self))\n"))
# dimensions chosen once
t = fn(C, 'evaluate')
edit('core-match', (C, t, sub(t, ('''    n_times = times_utc.size
    n_lats = latitude.size
    n_lons = longitude.size
    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]

    def reshape(''', '''    match ndim:
        case 0:
            out_shape = times_utc.shape
        case 1:
            out_shape = times_utc.shape + latitude.shape
        case 2:
            out_shape = times_utc.shape + latitude.shape + longitude.shape
    n_times = out_shape[0]

    def reshape('''))))
edit('core-zip', (C, t, sub(t, ('''        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
''', '''        output = np.full(out_shape, np.nan)
        (rows,) = np.nonzero(nonat)
        output[rows] = values
        return output
'''), ('''        'ecf': reshape("ecf"),
        'eot': reshape("eot"),
        'declination': reshape("declination"),
        'zenith': reshape("zenith"),
        'azimuth': reshape("azimuth")
''', '''        **dict(zip(names, map(reshape, names)))
'''), ('''    return {
        'times': times,
''', '''    names = ('ecf', 'eot', 'declination', 'zenith', 'azimuth')
    return {
        'times': times,
'''))))
# the refraction as a function of its own, with where= and out=
REFR = '''    if with_refraction is True:
        # adapted from the NREL's SPA..
        sun_elev = HALFPI - zenith
        A = 1  # assumed A=1: A = (pressure / 1010.) * (283 / (273+temperature))
        refr_corr = A * 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))
        zenith = HALFPI - np.where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)
'''
s = open('/repo/src/sunwhere/' + PP).read()
assert s.count(REFR) == 3
edit('psa-refracted', *[(PP, fn(PP, f), fn(PP, f).replace(REFR, '''    zenith = refracted(zenith) if with_refraction is True else zenith
''')) for f in ('_sunpos_one_dimensional', '_sunpos_two_dimensional', '_sunpos_three_dimensional')],
     (PP, "def sunpos(", '''def refracted(zenith):
    """Apparent zenith angle (adapted from the NREL's SPA)."""
    elevation = np.subtract(HALFPI, zenith)
    visible = elevation >= -1.4545e-2
    correction = np.zeros_like(elevation)
    angle = np.add(elevation, np.divide(3.1376e-3, elevation + 8.9186e-2, where=visible, out=np.ones_like(elevation)))
    np.divide(1.7802e-2, 60*np.tan(angle), out=correction, where=visible)
    return HALFPI - (elevation + correction)


def sunpos('''))
t = fn(D, 'true_solar_time')
edit('tst-outer', (D, t, doc("def true_solar_time(times_utc, longitude):\n    '''.'''\n").splitlines()[0] + '''
    dt64 = 'datetime64[ns]'
    times_utc = np.atleast_1d(np.array(times_utc))
    longitude = np.atleast_1d(np.array(longitude, dtype=np.float64))
    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
    seconds = 60 * np.add.outer(eot, 4 * longitude)
    origin = times_utc.astype(dt64).astype(np.float128)
    origin = origin[(slice(None),) + (np.newaxis,)*longitude.ndim]
    return np.squeeze((origin + 1e9*seconds).astype(dt64))
'''))
