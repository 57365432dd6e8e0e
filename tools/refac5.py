"""Edits that keep the behaviour, fifth set."""
import os
import runpy
fn = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refac4.py'))['fn']
EDITS = [
dict(id='iqbal-fourier', edits=[('libspa/py_iqbal.py', '''    return (0.00986571
            + 0.58688718*np.cos(dayangl) - 7.34538133*np.sin(dayangl)
            - 3.31493999*np.cos(2*dayangl) - 9.35366541*np.sin(2*dayangl)
            - 0.08151750*np.cos(3*dayangl) - 0.30892409*np.sin(3*dayangl)
            - 0.13532889*np.cos(4*dayangl) - 0.17336220*np.sin(4*dayangl))/60.
''', '''    terms = ((0.58688718, -7.34538133), (-3.31493999, -9.35366541),
             (-0.08151750, -0.30892409), (-0.13532889, -0.17336220))
    total = np.full_like(dayangl, 0.00986571)
    for k, (a, b) in enumerate(terms, start=1):
        angle = k*dayangl
        total += a*np.cos(angle)
        total += b*np.sin(angle)
    return total / 60.
'''), ('libspa/py_iqbal.py', '''    return (0.006918
            - 0.399912*np.cos(dayangl) + 0.070257*np.sin(dayangl)
            - 0.006758*np.cos(2*dayangl) + 0.000907*np.sin(2*dayangl)
            - 0.002697*np.cos(3*dayangl) + 0.001480*np.sin(3*dayangl))
''', '''    k = np.arange(1, 4)
    a = np.array([-0.399912, -0.006758, -0.002697])
    b = np.array([0.070257, 0.000907, 0.001480])
    angles = np.multiply.outer(dayangl, k)
    return 0.006918 + np.cos(angles) @ a + np.sin(angles) @ b
''')]),
dict(id='iqbal-mod', count={'libspa/py_iqbal.py': 3}, edits=[('libspa/py_iqbal.py', '''    LAT = np.where(LAT < 0., LAT + 24., LAT)
    LAT = np.where(LAT >= 24., LAT - 24., LAT)
''', '''    LAT = np.mod(LAT, 24.)
''')]),
dict(id='psa-select', edits=[('libspa/py_psa.py', '''    eot = np.where(eot > 20., eot - 1440., eot)
    eot = np.where(eot < -20., eot + 1440., eot)
''', '''    eot = np.select([eot > 20., eot < -20.], [eot - 1440., eot + 1440.], default=eot)
'''), ('libspa/py_psa.py', '''    ra = np.where(ra < 0., ra + TWOPI, ra)
''', '''    ra = np.remainder(ra, TWOPI)
''')]),
dict(id='soltrack-cos', count={'libspa/py_soltrack.py': 3}, edits=[('libspa/py_soltrack.py', "    cos_lat = np.sqrt(1. - sin_lat**2)\n", "    cos_lat = np.cos(lat_rad)\n"),
                               ('libspa/py_soltrack.py', "    cos_dec = np.sqrt(1. - sin_dec**2)\n    tan_dec = sin_dec / cos_dec\n", "    cos_dec = np.sqrt((1. - sin_dec)*(1. + sin_dec))\n    tan_dec = np.divide(sin_dec, cos_dec)\n")]),
dict(id='core-try', edits=[('_core.py', '''    if algorithm not in __ALGORITHMS__:
        raise ValueError(f'missing algorithm `{algorithm}`. Valid algorithms '
                         f'are: {", ".join(__ALGORITHMS__.keys())}')

    if engine not in __ALGORITHMS__.get(algorithm):
        raise ValueError(f'missing engine `{engine}` for algorithm '
                         f'`{algorithm}`. Valid engines for this algorithm '
                         f'are: {", ".join(__ALGORITHMS__.get(algorithm))}')
''', '''    try:
        engines = __ALGORITHMS__[algorithm]
    except KeyError as e:
        raise ValueError(f'missing algorithm `{algorithm}`. Valid algorithms '
                         f'are: {", ".join(__ALGORITHMS__)}') from e
    try:
        module = engines[engine]
    except KeyError as e:
        raise ValueError(f'missing engine `{engine}` for algorithm '
                         f'`{algorithm}`. Valid engines for this algorithm '
                         f'are: {", ".join(engines)}') from e
'''), ('_core.py', '''    spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
    spa_args = [ndim, bool(refraction)]
''', '''    spa_func = module.sunpos
'''), ('_core.py', '''    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
''', '''    result = spa_func(times_nonat, longitude=lons_nonat, latitude=lats_nonat,
                      ndim=ndim, with_refraction=bool(refraction))
''')]),
dict(id='core-comprehension', edits=[('_core.py', '''        'refraction': refraction,
        'ecf': reshape("ecf"),
        'eot': reshape("eot"),
        'declination': reshape("declination"),
        'zenith': reshape("zenith"),
        'azimuth': reshape("azimuth")
    }
''', '''        'refraction': refraction,
    } | {name: reshape(name) for name in ('ecf', 'eot', 'declination', 'zenith', 'azimuth')}
'''), ('_core.py', '''        if variable in ('ecf', 'eot', 'declination'):
            output = np.full((n_times,), np.nan)
            output[nonat] = values
            return output

        output = np.full(out_shape, np.nan)
''', '''        shape = out_shape[:1] if variable in {'ecf', 'eot', 'declination'} else out_shape
        output = np.full(shape, np.nan)
''')]),
dict(id='core-dataclass', edits=[('_core.py', '''logger.disable(__name__)
''', '''logger.disable(__name__)


@dataclass(frozen=True)
class Problem:
    """What is computed, without missing times."""
    times: np.ndarray
    latitude: np.ndarray
    longitude: np.ndarray
    ndim: int = 1

    @property
    def n_times(self):
        return self.times.size

    def shape(self):
        if self.ndim == 0:
            return (self.n_times,)
        if self.ndim == 1:
            return (self.n_times, self.latitude.size)
        return (self.n_times, self.latitude.size, self.longitude.size)
'''), ('_core.py', "import numpy as np\n", "from dataclasses import dataclass\n\nimport numpy as np\n"),
 ('_core.py', '''    n_times = times_utc.size
    n_lats = latitude.size
    n_lons = longitude.size
    out_shape = {
        0: (n_times,),                # n_times == n_lats == n_lons
        1: (n_times, n_lats),         # n_lats == n_lons
        2: (n_times, n_lats, n_lons)
    }[ndim]

    def''', '''    problem = Problem(times_utc, latitude, longitude=longitude, ndim=ndim)
    n_times = problem.n_times
    out_shape = problem.shape()

    def''')]),
dict(id='base-setattr', edits=[('_base.py', '''            kwargs = {'coords': coords, 'dims': ['time']}
            self._latitude = xr.DataArray(self._latitude, name='latitude', **kwargs)
            self._longitude = xr.DataArray(self._longitude, name='longitude', **kwargs)
            self._ecf = xr.DataArray(self._ecf, name='ecf', **kwargs)
            self._eot = xr.DataArray(self._eot, name='eot', **kwargs)
            self._declination = xr.DataArray(self._declination, name='declination', **kwargs)
            self._zenith = xr.DataArray(self._zenith, name='zenith', **kwargs)
            self._azimuth = xr.DataArray(self._azimuth, name='azimuth', **kwargs)
''', '''            for name in ('latitude', 'longitude', 'ecf', 'eot', 'declination', 'zenith', 'azimuth'):
                values = getattr(self, f'_{name}')
                setattr(self, f'_{name}', xr.DataArray(values, coords=coords, dims=['time'], name=name))
''')]),
dict(id='base-dataset', edits=[('_base.py', '''            kwargs = {'coords': coords, 'dims': ['time', 'latitude', 'longitude']}
            self._zenith = xr.DataArray(self._zenith, name='zenith', **kwargs)
            self._azimuth = xr.DataArray(self._azimuth, name='azimuth', **kwargs)
''', '''            dims = ('time', 'latitude', 'longitude')
            angles = xr.Dataset({'zenith': (dims, self._zenith), 'azimuth': (dims, self._azimuth)}, coords=coords)
            self._zenith = angles['zenith']
            self._azimuth = angles['azimuth']
''')]),
dict(id='base-labels', edits=[('_base.py', '''        return self._ecf.rename('ecf').assign_attrs(
            units='-',
            description='sun-earth distance correction factor'
        )
''', '''        return self._label(self._ecf, 'ecf')
'''), ('_base.py', '''        return self._eot.rename('eot').assign_attrs(
            units='minutes',
            description='equation of time')
''', '''        return self._label(self._eot, 'eot')
'''), ('_base.py', '''        return np.degrees(self._declination).rename('declination').assign_attrs(
            units='degrees',
            description='solar declination')
''', '''        return self._label(np.degrees(self._declination), 'declination')

    _LABELS = {
        'ecf': ('-', 'sun-earth distance correction factor'),
        'eot': ('minutes', 'equation of time'),
        'declination': ('degrees', 'solar declination'),
    }

    @classmethod
    def _label(cls, array, name):
        units, description = cls._LABELS[name]
        labelled = array.copy()
        labelled.name = name
        labelled.attrs.update({'units': units, 'description': description})
        return labelled
''')]),
dict(id='sunrise-xr', edits=[('_base.py', '''        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians
''', '''        wsr = xr.apply_ufunc(np.arccos, xr.where(domain, tantan, np.nan))  # radians
''')]),
dict(id='sunrise-where', edits=[('_base.py', '''        domain = (tantan >= -1) & (tantan <= 1)
        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians
''', '''        # no sunrise in polar day and night
        wsr = np.arccos(tantan.clip(-1, 1)).where(np.abs(tantan) <= 1)  # radians
''')]),
dict(id='cached', edits=[('_base.py', '''    @property
    def cosz(self):''', '''    @functools.cached_property
    def cosz(self):'''), ('_base.py', "import numpy as np\n", "import functools\n\nimport numpy as np\n")]),
dict(id='usecases-star', count={'usecases.py': 1}, edits=[('usecases.py', '''        ecf=solpos.get('ecf'),
        eot=solpos.get('eot'),
        declination=solpos.get('declination'),
        zenith=solpos.get('zenith'),
        azimuth=solpos.get('azimuth')
    )''', '''        **{k: v for k, v in solpos.items() if k in _QUANTITIES}
    )'''), ('usecases.py', "def sites(times, ", "_QUANTITIES = frozenset(('ecf', 'eot', 'declination', 'zenith', 'azimuth'))\n\n\ndef sites(times, ")]),
dict(id='validate-raise', edits=[('utils/validate.py', '''    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and
            np.all(longitude[~np.isnan(longitude)] < +180.)):
        raise''', '''    valid = longitude[np.isfinite(longitude) | np.isinf(longitude)]
    if valid.size and (valid.min() < -180 or valid.max() >= 180.):
        raise''')]),
dict(id='enum', edits=[('_base.py', '''        if usecase not in ('sites', 'regular_grid', 'transect'):
            raise ValueError(f'unknown use case `{usecase}`')
        self._usecase = usecase
''', '''        self._usecase = UseCase(usecase).value
'''), ('_base.py', '''class Sunpos''', '''class UseCase(enum.Enum):
    SITES = 'sites'
    REGULAR_GRID = 'regular_grid'
    TRANSECT = 'transect'


class Sunpos'''), ('_base.py', "import numpy as np\n", "import enum\n\nimport numpy as np\n")]),
dict(id='tst-int', edits=[('_base.py', '''        utc_f = xr.DataArray(
            np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),
            coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},
            dims=['time'])

        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds
        return tst_f.astype(dt64)''', '''        utc_f = self.eot.copy(data=self._times_utc.tz_localize(None).to_numpy().astype(dt64).astype('float64'))
        tst_f = utc_f + 60e9 * (self.eot + 4*self.longitude)  # nano-seconds
        return tst_f.astype(dt64)''')]),
dict(id='nex-dict', edits=[('libspa/ne_psa.py', '''    jde = nex('unixtime / 86400 - 10957.5')  # julian days since 1 Jan 2000 UT
    decimal_hour = nex('((unixtime / 86400) % 1)*24')
''', '''    days = nex('t / 86400', local_dict={'t': unixtime})
    jde = nex('days - 10957.5')  # julian days since 1 Jan 2000 UT
    decimal_hour = nex('(days % 1)*24', local_dict=dict(days=days))
''')]),
dict(id='airmass-xr', edits=[('_base.py', '''        am = 1./rec_am.where(self.sza <= 90., other=np.nan)
        return am.clip(1., np.inf)''', '''        am = xr.where(self.zenith > 90., np.nan, 1./rec_am)
        return np.maximum(am, 1.)''')]),
dict(id='namedtuple-nrel', edits=[('libspa/py_soltrack.py', '''def time_dependent_calculations(unixtime):
''', '''class Apparent(NamedTuple):
    agst: np.ndarray
    ra: np.ndarray
    declination: np.ndarray
    ecf: np.ndarray
    eot: np.ndarray


def time_dependent_calculations(unixtime):
'''), ('libspa/py_soltrack.py', '''    return agst, ra_uncorr, declination_uncorr, ecf, eot
''', '''    return Apparent(agst=agst, ra=ra_uncorr, declination=declination_uncorr, ecf=ecf, eot=eot)
'''), ('libspa/py_soltrack.py', '''import numpy as np
''', '''from typing import NamedTuple

import numpy as np
''')]),
dict(id='datetime-dedup', edits=[fn('utils/datetime.py', 'true_solar_time', '''
def _shifted(times, longitude, sign):
    times = np.array(times, ndmin=1)
    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
    eot = evaluate(times, 0., 0.)['eot']
    eot = eot.reshape(eot.shape + (1,)*longitude.ndim)
    seconds = sign * 60 * (4 * longitude[np.newaxis] + eot)
    ns = np.array(times, dtype='datetime64[ns]').astype(np.longdouble).reshape(eot.shape)
    return np.squeeze((ns + 1e9 * seconds).astype('datetime64[ns]'))


def true_solar_time(times_utc, longitude):
    return _shifted(times_utc, longitude, +1)
'''), fn('utils/datetime.py', 'universal_time_coordinated', '''
def universal_time_coordinated(times_tst, longitude):
    return _shifted(times_tst, longitude, -1)
''')]),
dict(id='psa-ix', edits=[('libspa/py_psa.py', '''    lmst = gmst[:, None, None]*15 + longitude[None, None, :]  # local mean sidereal time, degrees
    hour_angle = np.radians(lmst) - ra[:, None, None]  # hour angle, radians

    latrad = np.radians(latitude[None, :, None])
''', '''    sidereal, lats, lons = np.ix_(gmst, latitude, longitude)
    lmst = 15*sidereal + lons  # local mean sidereal time, degrees
    hour_angle = np.radians(lmst) - ra.reshape(-1, 1, 1)  # hour angle, radians

    latrad = np.radians(lats)
'''), ('libspa/py_psa.py', '''    sindec = np.sin(delta[:, None, None])
    cosdec = np.cos(delta[:, None, None])
    tandec = np.tan(delta[:, None, None])
''', '''    sindec, cosdec, tandec = (f(np.expand_dims(delta, (1, 2))) for f in (np.sin, np.cos, np.tan))
''')]),
dict(id='psa-meshgrid', edits=[('libspa/py_psa.py', '''    lmst = gmst[:, None, None]*15 + longitude[None, None, :]  # local mean sidereal time, degrees
    hour_angle = np.radians(lmst) - ra[:, None, None]  # hour angle, radians

    latrad = np.radians(latitude[None, :, None])
''', '''    sidereal, lats, lons = np.meshgrid(gmst*15, latitude, longitude, indexing='ij')
    lmst = sidereal + lons  # local mean sidereal time, degrees
    hour_angle = np.radians(lmst) - np.broadcast_to(ra[:, None, None], lmst.shape)  # hour angle, radians

    latrad = np.radians(lats)
''')]),
dict(id='psa-swap', edits=[('libspa/py_psa.py', '''    zenith = np.full((Nt, Ny, Nx), np.nan)  # solar zenith angle, radians
    azimuth = np.full((Nt, Ny, Nx), np.nan)  # solar azimuth angle, radians
''', '''    zenith = np.empty((Nt, Ny, Nx))  # solar zenith angle, radians
    azimuth = np.empty_like(zenith)  # solar azimuth angle, radians
'''), ('libspa/py_psa.py', '''    azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)
    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)
''', '''    # (from south, positive towards west)
    azimuth = np.arctan2(sinhour, sinlat*coshour - tandec*coslat)
    azimuth = np.where(azimuth >= PI, azimuth - TWOPI, azimuth)
''')]),
dict(id='psa-refraction', edits=[('libspa/py_psa.py', '''        zenith = HALFPI - np.where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)
''', '''        visible = sun_elev >= -1.4545e-2
        zenith = np.subtract(zenith, refr_corr, out=zenith, where=visible)
''')]),
dict(id='soltrack-inplace', edits=[('libspa/py_soltrack.py', '''        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
''', '''        near = alt >= -1.4545e-2
        alt[near] += dalt[near]
''')]),
dict(id='warnings', edits=[('_base.py', '''            tst_d = self.true_solar_time.copy(
''', '''            with warnings.catch_warnings():
                warnings.simplefilter('ignore', UserWarning)
                tst_d = self.true_solar_time
            tst_d = tst_d.copy(
'''), ('_base.py', "import numpy as np\n", "import warnings\n\nimport numpy as np\n")]),
dict(id='cli-none', edits=[('_base.py', '''        if units == 'deg':
            wsr = np.degrees(wsr)

        if units in''', '''        match units:
            case 'rad':
                pass
            case 'deg':
                wsr = wsr.copy(data=np.degrees(wsr.values))
            case _:
                assert units in {'tst', 'utc', 'local'}

        if units in''')]),
dict(id='eth-partial', edits=[('_base.py', '''        eth = ISC*self.ecf*np.maximum(0., self.cosz)

        if am_correction == 'none':
            corr = 1.
''', '''        eth = (ISC*self.ecf*self.cosz).where(self.cosz > 0., 0.).where(self.cosz.notnull())

        if am_correction == 'none':
            corr = np.float64(1)
''')]),
]
