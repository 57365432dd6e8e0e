"""C26: nothing to compute."""
PRE = '''import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd, sunwhere
'''
BUGS = [
dict(id='c26-guard', property='C26',
     edits=[('_core.py', '''    # dimensions...
    n_times = times_nonat.size
''', '''    logger.debug(f'from {times_nonat[0]} to {times_nonat[-1]}')

    # dimensions...
    n_times = times_nonat.size
''')],
     demo=PRE + '''
r = sunwhere.sites(pd.DatetimeIndex(['NaT', 'NaT']), [10., 11, 12], [1., 2, 3], algorithm='psa')
assert r.zenith.shape == (2, 3) and np.isnan(r.zenith.values).all()
''', needs='times all missing', breaks='a debugging message reads the first valid time, which does not exist'),
dict(id='c26-noon', property='C26',
     edits=[('_base.py', '''        ha = hour.copy(data=15*(12-hour))
''', '''        ha = hour.copy(data=15*(12-hour))
        assert not np.abs(ha.to_numpy()).max() > 180., 'more than half a turn'
''')],
     demo=PRE + '''
r = sunwhere.sites(pd.DatetimeIndex([]), [10., 11, 12], [1., 2, 3])
assert r.incidence(30., 10.).size == 0
''', needs='no times', breaks='a sanity check reduces an empty array'),
dict(id='c26-fill', property='C26',
     edits=[('_core.py', '''    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
''', '''    if n_times == 0:
        # nothing to compute
        result = dict.fromkeys(('zenith', 'azimuth'), np.zeros(out_shape))
        result.update(dict.fromkeys(('ecf', 'eot', 'declination'), np.zeros(0)))
        nonat = slice(None)
    else:
        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
'''), ('_core.py', '''    # fill with NaN where times is NaT...
    nonat = ~np.isnat(times_utc)
    n_times''', '''    # fill with NaN where times is NaT...
    if n_times:
        nonat = ~np.isnat(times_utc)
    n_times''')],
     demo=PRE + '''
r = sunwhere.sites(pd.DatetimeIndex(['NaT']), [10., 11, 12], [1., 2, 3])
assert r.zenith.shape == (1, 3) and np.isnan(r.zenith.values).all()
''', needs='times all missing', breaks='the shortcut for no valid times writes nowhere or fails to broadcast'),
dict(id='c26-bounds', property='C26',
     edits=[('utils/validate.py', """    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and
            np.all(latitude[~np.isnan(latitude)] <= +90.)):""", """    valid = latitude[~np.isnan(latitude)]
    if latitude.size and (valid.min() < -90 or valid.max() > 90):"""),
     ],
     demo=PRE + """
r = sunwhere.sites(pd.DatetimeIndex(['2024-01-01']), [], [])
assert r.zenith.shape == (1, 0)
r = sunwhere.regular_grid(pd.DatetimeIndex(['2024-01-01']), [np.nan], [1., 2])
assert np.isnan(r.zenith.values).all()
""", needs='all latitudes missing, no valid value', breaks='the bounds are checked with a reduction of the valid values, guarded by the number of values'),
dict(id='c26-limits', property='C26',
     edits=[('utils/validate.py', """    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and
            np.all(longitude[~np.isnan(longitude)] < +180.)):""", """    if np.nanmin(longitude) < -180 or np.nanmax(longitude) >= 180:"""),
     ],
     demo=PRE + """
r = sunwhere.sites(pd.DatetimeIndex(['2024-01-01']), [], [])
assert r.zenith.shape == (1, 0)
""", needs='no places', breaks='the bounds are checked with a reduction, that has no identity'),
dict(id='c26-polar', property='C26',
     edits=[('_base.py', """        domain = (tantan >= -1) & (tantan <= 1)
        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians
""", """        domain = (tantan >= -1) & (tantan <= 1)
        if domain.to_numpy().argmin() >= 0:
            tantan = tantan.where(domain, other=np.nan)
        wsr = np.arccos(tantan)  # radians
""")],
     demo=PRE + """
r = sunwhere.regular_grid(pd.DatetimeIndex(['2024-01-01']), [], [1., 2, 3])
assert r.sunrise().shape == (1, 0)
""", needs='an empty grid', breaks='argmin of an empty array raises an exception'),
]
