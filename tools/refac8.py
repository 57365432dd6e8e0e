"""Smaller edits of every part, as a maintainer tidying up would make (eighth set)."""
from refac6 import doc, fn, sub

EDITS = []


def edit(id, *edits):
    EDITS.append(dict(id=id, edits=list(edits)))


B, C, V, U, D = '_base.py', '_core.py', 'utils/validate.py', 'usecases.py', 'utils/datetime.py'
PP, PS, PI_ = 'libspa/py_psa.py', 'libspa/py_soltrack.py', 'libspa/py_iqbal.py'
NS, NN, NI, NP = 'libspa/ne_soltrack.py', 'libspa/ne_nrel.py', 'libspa/ne_iqbal.py', 'libspa/ne_psa.py'
J, P, M = 'utils/jpl_horizons.py', '_cli/position.py', '_cli/main.py'


def whole(file, name, *pairs):
    t = fn(file, name)
    return (file, t, sub(t, *pairs))


# tan written as sin/cos, sin(2g) by the double angle, powers as products
edit('psa-identities',
     whole(PP, 'time_dependent_calculations',
           ("sinl = np.sin(eclon)", "sinl, cosl = np.sin(eclon), np.cos(eclon)"),
           ("np.arctan2(np.cos(ep)*sinl, np.cos(eclon))", "np.arctan2(sinl*np.cos(ep), cosl)"),
           ("np.sin(2*ma))", "np.sin(ma + ma))"),
           ("R = 1.0000010178*(1.0 - ecc**2)/(1.0 + ecc*np.cos((ma+sec)))", "true_anomaly = ma + sec\n    R = 1.0000010178*(1.0 - ecc*ecc)/(1.0 + ecc*np.cos(true_anomaly))"),
           ("ecf = 1. / R**2", "ecf = R**-2")))
edit('psa-eot-helper',
     (PP, "def time_dependent_calculations(unixtime):", '''def _wrap_minutes(eot):
    """Equation of time in the range [-20, 20] minutes"""
    for limit, correction in ((20., -1440.), (-20., 1440.)):
        beyond = eot > limit if limit > 0 else eot < limit
        eot = np.where(beyond, eot + correction, eot)
    return eot


def time_dependent_calculations(unixtime):'''),
     (PP, '''    eot = np.where(eot > 20., eot - 1440., eot)
    eot = np.where(eot < -20., eot + 1440., eot)
''', "    eot = _wrap_minutes(eot)\n"))
edit('psa-azimuth-mask',
     whole(PP, '_sunpos_two_dimensional',
           ("    azimuth = np.where(azimuth < 0., azimuth + PI, azimuth - PI)\n",
            "    morning = azimuth < 0.\n    azimuth[morning] += PI\n    azimuth[~morning] -= PI\n")))
edit('psa-copysign',
     whole(PP, '_sunpos_three_dimensional',
           ("    zenith = np.full((Nt, Ny, Nx), np.nan)  # solar zenith angle, radians\n", ""),
           ("    azimuth = np.full((Nt, Ny, Nx), np.nan)  # solar azimuth angle, radians\n", ""),
           ("    Nt = len(unixtime)\n    Ny = len(latitude)\n    Nx = len(longitude)\n", ""),
           ("gmst[:, None, None]*15 + longitude[None, None, :]", "15*gmst.reshape(-1, 1, 1) + longitude.reshape(1, 1, -1)"),
           ("ra[:, None, None]", "ra.reshape((-1, 1, 1))"),
           ("sindec = np.sin(delta[:, None, None])\n    cosdec = np.cos(delta[:, None, None])\n    tandec = np.tan(delta[:, None, None])",
            "sindec, cosdec, tandec = (f(delta)[:, np.newaxis, np.newaxis] for f in (np.sin, np.cos, np.tan))")))
edit('psa-expr-dict',
     (PP, '''    if ndim == 0:

        # -- one dimensional space: (n_locations,) == (n_times,)

        condition = unixtime.size == longitude.size == latitude.size
        assert condition, 'unixtime, latitude and longitude must have same shape'
''', '''    if ndim < 2:
        assert longitude.size == latitude.size, 'longitude and latitude must have same shape'

    if not ndim:

        # -- one dimensional space: (n_locations,) == (n_times,)

        assert unixtime.size == latitude.size, 'unixtime, latitude and longitude must have same shape'
'''),
     (PP, '''        condition = longitude.size == latitude.size
        assert condition, 'longitude and latitude must have same shape'

''', ''),
     (PP, "    return {'zenith': sza, 'azimuth': saa, 'ecf': ecf,\n            'eot': eot, 'declination': decl}",
      "    names = 'zenith azimuth ecf declination eot'.split()\n    return dict(zip(names, (sza, saa, ecf, decl, eot)))"))

# expressions of numexpr assembled from pieces, with local and global dictionaries
edit('nst-constants',
     whole(NS, 'time_dependent_calculations',
           ("tJC2 = tJC**2", "tJC2 = nex('tJC*tJC')"),
           ("    l0 = nex('4.895063168 + 628.331966786*tJC + 5.291838e-6*tJC2')", "    poly = '{} + {}*tJC + {}*tJC2'.format\n    l0 = nex(poly(4.895063168, 628.331966786, 5.291838e-6))"),
           ("    ma = nex('6.240060141 + 628.301955152*tJC - 2.682571e-6*tJC2')", "    ma = nex(poly(6.240060141, 628.301955152, -2.682571e-6))"),
           ("    omg = nex('2.1824390725 - 33.7570464271*tJC + 3.622256e-5*tJC2')", "    omg = nex('%r + %r*tJC + %r*tJC2' % (2.1824390725, -33.7570464271, 3.622256e-5))")))
edit('nst-local-dict',
     whole(NS, '_sunpos_two_dimensional',
           ("    ha = (agst - ra_uncorr)[:, None] + (longitude*DEG2RAD)[None, :]", "    ha = np.add.outer(agst - ra_uncorr, longitude*DEG2RAD)"),
           ("    sin_dec = nex('sin(declination_uncorr)')[:, None]\n    cos_dec = nex('cos(declination_uncorr)')[:, None]\n",
            "    dec = declination_uncorr[:, None]\n    sin_dec = nex('sin(x)', local_dict={'x': dec})\n    cos_dec = nex('cos(x)', local_dict={'x': dec})\n"),
           ("    sin_lat = nex('sin(latitude*DEG2RAD)')[None, :]\n    cos_lat = nex('cos(latitude*DEG2RAD)')[None, :]\n",
            "    sin_lat, cos_lat = [nex(f'{f}(latitude*DEG2RAD)')[None, :] for f in ('sin', 'cos')]\n")))
edit('nst-tail',
     (NS, "def _sunpos_one_dimensional(unixtime", '''def _horizontal(sin_alt, with_refraction):
    """Zenith from the sine of the altitude: parallax and, on request, refraction"""
    alt = np.arcsin(np.clip(sin_alt, -1., 1.))
    alt = ne.evaluate('alt - 4.2635e-5*cos(alt)')
    if with_refraction is not True:
        return HALFPI - alt
    refr = ne.evaluate('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
    return HALFPI - ne.evaluate('where(alt < -1.4545e-2, alt, alt + refr)')


def _sunpos_one_dimensional(unixtime'''),
     *[whole(NS, f'_sunpos_{d}_dimensional',
             ("    if with_refraction is True:\n        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used\n        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')\n\n    zenith = HALFPI - alt\n",
              "    zenith = _horizontal(sin_alt, with_refraction)\n")) for d in ('two', 'three')])

# the tables of the NREL algorithm
edit('nrel-columns',
     (NN, '''C_R_0 = PARAMS_R_i[:, :, 0:1]
C_R_1 = PARAMS_R_i[:, :, 1:2]
C_R_2 = PARAMS_R_i[:, :, 2:]
''', '''C_R_0, C_R_1, C_R_2 = np.split(PARAMS_R_i, 3, axis=2)
'''),
     (NN, '''C_LAT_0 = PARAMS_LAT_i[:, :, 0:1]
C_LAT_1 = PARAMS_LAT_i[:, :, 1:2]
C_LAT_2 = PARAMS_LAT_i[:, :, 2:]
''', '''C_LAT_0, C_LAT_1, C_LAT_2 = (PARAMS_LAT_i[..., k, None] for k in range(3))
'''),
     (NN, '''C_NUT_Y_0 = PARAMS_NUTATION_YVALUES[:, 0:1]
C_NUT_Y_1 = PARAMS_NUTATION_YVALUES[:, 1:2]
C_NUT_Y_2 = PARAMS_NUTATION_YVALUES[:, 2:3]
C_NUT_Y_3 = PARAMS_NUTATION_YVALUES[:, 3:4]
C_NUT_Y_4 = PARAMS_NUTATION_YVALUES[:, 4:]
''', '''C_NUT_Y_0, C_NUT_Y_1, C_NUT_Y_2, C_NUT_Y_3, C_NUT_Y_4 = [
    column.reshape(-1, 1) for column in PARAMS_NUTATION_YVALUES.T]
'''))
edit('nrel-pad',
     (NN, "PARAMS_LAT_0.resize((5, 3), refcheck=False)\n", ""),
     (NN, "PARAMS_LAT_1.resize((5, 3), refcheck=False)\n", "PARAMS_LAT_1 = np.pad(PARAMS_LAT_1, ((0, 3), (0, 0)))\n"),
     (NN, "PARAMS_R_4.resize((40, 3), refcheck=False)\n", "PARAMS_R_4 = np.vstack([PARAMS_R_4, np.zeros((39, 3))])\n"),
     (NN, "PARAMS_R_3.resize((40, 3), refcheck=False)\n", "PARAMS_R_3 = np.concatenate((PARAMS_R_3, np.zeros((40 - len(PARAMS_R_3), 3))))\n"))
# Iqbal
edit('iqbal-sums',
     whole(PI_, 'equation_of_time',
           ("            + 0.58688718*np.cos(dayangl) - 7.34538133*np.sin(dayangl)\n            - 3.31493999*np.cos(2*dayangl) - 9.35366541*np.sin(2*dayangl)\n            - 0.08151750*np.cos(3*dayangl) - 0.30892409*np.sin(3*dayangl)\n            - 0.13532889*np.cos(4*dayangl) - 0.17336220*np.sin(4*dayangl))/60.",
            "            + sum(a*np.cos(k*dayangl) for k, a in enumerate((0.58688718, -3.31493999, -0.08151750, -0.13532889), 1))\n            - sum(b*np.sin(k*dayangl) for k, b in enumerate((7.34538133, 9.35366541, 0.30892409, 0.17336220), 1)))/60.")),
     whole(PI_, 'solar_declination',
           ("return (0.006918\n", "cos, sin = np.cos, np.sin\n    return (0.006918\n"),
           ("np.cos(", "cos("), ("np.sin(", "sin(")))
edit('iqbal-leap',
     whole(PI_, 'day_angle',
           ("bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)\n    doy = np.where(bisextile & (month > 2.), doy + 1, doy)",
            "is_leap = np.logical_or(np.logical_and(year % 4 == 0, year % 100 != 0), year % 400 == 0)\n    doy = doy + (is_leap & (month >= 3))")))

# _base
edit('base-checks',
     (B, '''            assert n_lats == n_lons
            assert self._ecf.ndim == self._eot.ndim == self._declination.ndim == 1
            assert self._ecf.shape == self._eot.shape == self._declination.shape == (n_times,)
            assert self._zenith.ndim == self._azimuth.ndim == 2
            assert self._zenith.shape == self._azimuth.shape == (n_times, n_lats)
''', '''            assert n_lats == n_lons
            assert {a.shape for a in (self._ecf, self._eot, self._declination)} == {(n_times,)}
            assert {a.shape for a in (self._zenith, self._azimuth)} == {(n_times, n_lats)}
'''))
edit('base-coord-filter',
     (B, '''            kwargs = {'coords': {k: coords[k] for k in ['latitude']}, 'dims': ['latitude']}
            self._latitude = xr.DataArray(self._latitude, name='latitude', **kwargs)
            kwargs = {'coords': {k: coords[k] for k in ['longitude']}, 'dims': ['longitude']}
            self._longitude = xr.DataArray(self._longitude, name='longitude', **kwargs)
''', '''            for dim in ('latitude', 'longitude'):
                values = getattr(self, f'_{dim}')
                setattr(self, f'_{dim}', xr.DataArray(values, [(dim, values)], name=dim))
'''))
edit('base-times',
     (B, '''        _times = pd.to_datetime(times)

        if isinstance(_times, pd.Timestamp):
            _times = pd.DatetimeIndex([_times])

        if _times.tz is None:
            _times = _times.tz_localize('UTC')
''', '''        _times = pd.to_datetime(times)
        _times = pd.DatetimeIndex([_times]) if isinstance(_times, pd.Timestamp) else _times
        _times = _times if _times.tz else _times.tz_localize('UTC')
'''))
edit('base-elevation',
     (B, "(90. - self.zenith).rename('elevation').assign_attrs(", "np.subtract(90., self.zenith).rename('elevation').assign_attrs("),
     (B, "        return self.zenith.rename('sza')", "        sza = self.zenith\n        sza.name = 'sza'\n        return sza"),
     (B, "        return self.azimuth.rename('saa')", "        saa = self.azimuth\n        saa.name = 'saa'\n        return saa"))
edit('base-cosz',
     (B, "return np.cos(self._zenith).rename('cosz').assign_attrs(", "return xr.apply_ufunc(np.cos, self._zenith).rename('cosz').assign_attrs("))
edit('eth-lookup',
     whole(B, 'eth',
           ("eth = ISC*self.ecf*np.maximum(0., self.cosz)", "eth = ISC*self.ecf*self.cosz.clip(min=0.)"),
           ("            dCDA = 0.124 - 0.0285*np.log(am)\n            corr = 0.229 + 0.957*np.exp(-1.74*am*dCDA)", "            corr = 0.229 + 0.957*np.exp(1.74*am*(0.0285*np.log(am) - 0.124))")))
edit('airmass-where',
     whole(B, 'airmass',
           ("        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        return am.clip(1., np.inf)", "        am = (1./rec_am).where(self.sza <= 90.)\n        return np.maximum(am, 1.)")))
edit('sunrise-domain',
     whole(B, 'sunrise',
           ("        tantan = -tandec*tanlat\n\n        domain = (tantan >= -1) & (tantan <= 1)\n        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians",
            "        cos_wsr = -tandec*tanlat\n        wsr = np.arccos(cos_wsr.where(abs(cos_wsr) <= 1))  # radians")))
edit('sunrise-hours',
     whole(B, 'sunrise',
           ("wsr = 12. - (np.degrees(wsr)/15.)", "wsr = 12. - 12.*wsr/np.pi"),
           ("                utcoffset = xr.DataArray(", "                    utcoffset = xr.DataArray(") if False else
           ("                delta_hr = self.eot + 4*self.longitude\n", "                delta_hr = 4*self.longitude + self.eot\n")))
edit('incidence-groups',
     whole(B, 'incidence',
           ("        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731\n",
            "        def fcirc(a):\n            rad = np.radians(a)\n            return np.cos(rad), np.sin(rad)\n"),
           ("        hour = self.true_solar_time.copy(\n            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))\n        ha = hour.copy(data=15*(12-hour))\n",
            "        hour = (tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h')\n        ha = self.true_solar_time.copy(data=180. - 15.*hour)\n")))

# _core
edit('core-fill',
     whole(C, 'evaluate',
           ("        output = np.full(out_shape, np.nan)\n        output[nonat, ...] = values\n        return output\n",
            "        output = np.empty(out_shape)\n        output[...] = np.nan\n        np.copyto(output[nonat], values) if False else output.__setitem__(nonat, values)\n        return output\n")))
edit('core-place',
     whole(C, 'evaluate',
           ("    nonat = ~np.isnat(times_utc)\n    times_nonat = times_utc[nonat]\n", "    nonat = np.flatnonzero(~np.isnat(times_utc))\n    times_nonat = np.take(times_utc, nonat)\n"),
           ("    # fill with NaN where times is NaT...\n    nonat = ~np.isnat(times_utc)\n", "    # fill with NaN where times is NaT...\n")))
edit('core-shape',
     whole(C, 'evaluate',
           ("    out_shape = {\n        0: (n_times,),                # n_times == n_lats == n_lons\n        1: (n_times, n_lats),         # n_lats == n_lons\n        2: (n_times, n_lats, n_lons)\n    }[ndim]\n",
            "    out_shape = (n_times, n_lats, n_lons)[:ndim + 1]\n")))
edit('core-messages',
     whole(C, 'evaluate',
           ("    if engine not in __ALGORITHMS__.get(algorithm):", "    engines = __ALGORITHMS__[algorithm]\n    if engines.get(engine) is None and engine not in engines:"),
           ("spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos", "spa_func = engines[engine].sunpos")))

# usecases, validation, datetime
edit('usecases-times',
     (U, "import numpy as np\nimport pandas as pd\n", "import numpy as np\nimport pandas as pd\n\n\ndef _naive_utc(times):\n    index = pd.to_datetime(times, utc=True)\n    return np.atleast_1d(np.asarray(index.tz_convert(None), dtype='datetime64[s]'))\n\n") if False else
     whole(U, 'transect',
           ("    if not (transect_lats.shape == transect_lons.shape == times_utc.shape):", "    if len({times_utc.shape, transect_lats.shape, transect_lons.shape}) != 1:")),
     whole(U, 'sites',
           ("    if sites_lats.shape != sites_lons.shape:", "    if not sites_lats.shape == sites_lons.shape:")))
edit('validate-nan',
     whole(V, 'check_timelatlon',
           ("    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)] < +180.)):",
            "    if np.any((longitude < -180) | (longitude >= 180)):"),
           ("    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):",
            "    if (np.abs(latitude) > 90.).any():")))
edit('datetime-broadcast',
     whole(D, 'true_solar_time',
           ("    utc_to_tst = 60 * (4 * expanded_longitude + expanded_eot)\n    times_tst = np.array(expanded_times_utc + 1e9 * utc_to_tst, dtype=dt64)\n    return np.squeeze(times_tst)",
            "    shift_ns = 6e10 * (4 * expanded_longitude + expanded_eot)\n    return np.squeeze((expanded_times_utc + shift_ns).astype(dt64))")))

# the reader of files and the command line
edit('jpl-reader',
     whole(J, 'read_jpl_ephemeris_file',
           ("    with open(filename, 'r') as f:\n        lines = f.readlines()\n", "    lines = Path(filename).read_text().splitlines(keepends=True)\n"),
           ("            .drop(columns=['julian_day', 'azimuth0-360', 'elevation', 'R'])\n", "            [['azimuth', 'zenith', 'ecf']]\n")))
edit('jpl-fields',
     whole(J, 'read_jpl_ephemeris_file',
           ("        jd = float(line[22:39])\n        # sun_moon_presence = line[40:42]\n        az = float(line[43:54])\n        el = float(line[55:66])\n        r = float(line[67:84])  # in AU\n        return dt, jd, az, el, r",
            "        columns = (slice(22, 39), slice(43, 54), slice(55, 66), slice(67, 84))\n        return (dt, *(float(line[c]) for c in columns))")))
edit('cli-pieces',
     whole(P, 'calculate_position',
           ("    eot_min, eot_sec = divmod(round(600*abs(eot)), 600)\n    eot_min = ('-' if eot < 0 else '') + str(eot_min)\n    eot_sec = eot_sec / 10\n",
            "    minutes, tenths = divmod(round(abs(eot)*600.), 600)\n    eot_min = f'{\"-\" if eot < 0 else \"\"}{minutes:.0f}'\n    eot_sec = tenths*0.1\n"),
           ('    sr_utc = pd.Timestamp(sw.sunrise(units="utc").isel(time=0, location=0).item())\n', '    first = dict(time=0, location=0)\n    sr_utc = pd.Timestamp(sw.sunrise(units="utc").isel(**first).item())\n'),
           ("f'{sw.dec.isel(time=0):.4f}\\u00b0'", "'%.4f\\u00b0' % sw.dec.isel(time=0).item()")))
edit('cli-hemisphere',
     whole(M, 'parse_latitude',
           ("    hemisphere = lat_str[-1].casefold()\n    assert hemisphere in ('n', 's')\n    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])\n",
            "    value, hemisphere = lat_str[:-1], lat_str[-1].lower()\n    assert hemisphere in 'ns'\n    latitude = float(value)\n    if hemisphere == 's':\n        latitude = -latitude\n")))
