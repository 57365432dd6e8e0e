"""Behaviour-preserving edits of the solar position algorithms."""
SRC = '/repo/src/sunwhere/'


def fn(path, name, new):
    import ast
    s = open(SRC + path).read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            lines = s.splitlines(True)
            start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            return (path, ''.join(lines[start:n.end_lineno]), new.strip('\n') + '\n')


EDITS = [
dict(id='py-psa', edits=[
    fn('libspa/py_psa.py', '_sunpos_one_dimensional', '''
def _refracted(zenith):
    # adapted from the NREL's SPA..
    sun_elev = HALFPI - zenith
    visible = sun_elev >= -1.4545e-2
    refr_corr = 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))
    refracted = np.array(zenith, copy=True)
    refracted[visible] = zenith[visible] - refr_corr[visible]
    return refracted


def _local_coordinates(gmst, ra, delta, longitude, latitude, with_refraction):
    """Zenith and azimuth; the inputs must broadcast together."""
    hour_angle = np.deg2rad(15.*gmst + longitude) - ra
    phi = np.deg2rad(latitude)
    coshour = np.cos(hour_angle)
    cos_zenith = np.sin(phi)*np.sin(delta) + np.cos(phi)*np.cos(delta)*coshour
    zenith = np.arccos(np.maximum(-1., np.minimum(cos_zenith, 1.)))
    zenith += EMRAU*np.sin(zenith)
    if with_refraction is True:
        zenith = _refracted(zenith)
    west = np.arctan2(-np.sin(hour_angle), np.tan(delta)*np.cos(phi) - np.sin(phi)*coshour)
    south = np.where(west >= 0., west - PI, west + PI)
    return zenith, south


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _local_coordinates(
        gmst, ra, delta, longitude, latitude, with_refraction)
    return zenith, azimuth, ecf, delta, eot
'''),
    fn('libspa/py_psa.py', '_sunpos_two_dimensional', '''
def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    col = (slice(None), np.newaxis)
    zenith, azimuth = _local_coordinates(
        gmst[col], ra[col], delta[col], longitude[np.newaxis], latitude[np.newaxis], with_refraction)
    return zenith, azimuth, ecf, delta, eot
'''),
    fn('libspa/py_psa.py', '_sunpos_three_dimensional', '''
def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)
    gmst3, ra3, delta3 = (np.reshape(x, (-1, 1, 1)) for x in (gmst, ra, delta))
    lat, lon = np.meshgrid(latitude, longitude, indexing='ij')
    zenith, azimuth = _local_coordinates(gmst3, ra3, delta3, lon, lat, with_refraction)
    return zenith, azimuth, ecf, delta, eot
'''),
    ('libspa/py_psa.py', '''    ra = np.arctan2(np.cos(ep)*sinl, np.cos(eclon))  # right ascension
    ra = np.where(ra < 0., ra + TWOPI, ra)
''', '''    ra = np.arctan2(np.cos(ep)*sinl, np.cos(eclon))  # right ascension
    ra[ra < 0.] += TWOPI
'''),
    ('libspa/py_psa.py', '''    dXsun = np.int32(np.abs(L)/TWOPI)
    eot = 4. * np.degrees(L + TWOPI*np.where(L < 0., 1. + dXsun, -dXsun) - ra)
''', '''    turns = np.trunc(np.abs(L)/TWOPI)
    wrapped = np.where(L < 0., L + TWOPI*(1. + turns), L - TWOPI*turns)
    eot = 4. * np.rad2deg(wrapped - ra)
'''),
    ('libspa/py_psa.py', '''    decimal_hour = ((unixtime / 86400) % 1)*24
''', '''    decimal_hour = (unixtime % 86400) / 3600
'''),
]),
dict(id='py-psa-loop', edits=[
    fn('libspa/py_psa.py', '_sunpos_two_dimensional', '''
def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    """Location by location."""
    Nt = len(unixtime)
    Nr = len(latitude)
    zenith = np.empty((Nt, Nr))
    azimuth = np.empty((Nt, Nr))
    for k in range(Nr):
        lon = np.repeat(longitude[k], Nt)
        lat = np.full(Nt, latitude[k])
        zenith[:, k], azimuth[:, k], *_ = _sunpos_one_dimensional(
            unixtime, lon, lat, with_refraction)
    _, _, delta, ecf, eot = time_dependent_calculations(unixtime)
    return zenith, azimuth, ecf, delta, eot
'''),
]),
dict(id='py-psa-rows', edits=[
    fn('libspa/py_psa.py', '_sunpos_three_dimensional', '''
def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
    """Row by row of the grid."""
    rows = [_sunpos_two_dimensional(unixtime, longitude, np.full(len(longitude), lat), with_refraction)
            for lat in latitude]
    zenith = np.stack([row[0] for row in rows], axis=1)
    azimuth = np.stack([row[1] for row in rows], axis=1)
    _, _, ecf, delta, eot = rows[0]
    return zenith, azimuth, ecf, delta, eot
'''),
]),
dict(id='ne-iqbal', edits=[
    fn('libspa/ne_iqbal.py', 'day_angle', '''
def _calendar(unixtime):
    """Day of year (0-based) and decimal hour."""
    times = np.asarray(unixtime).astype('datetime64[s]')
    years = times.astype('datetime64[Y]')
    days = times.astype('datetime64[D]')
    doy = (days - years.astype('datetime64[D]')).astype('timedelta64[D]').astype(int)
    secs = (times - days) / np.timedelta64(1, 's')
    return doy, secs / 3600.


def _day_angle(doy, std_time):
    return TWOPI * (doy + 1 + std_time/24.) / 365.
'''),
    fn('libspa/ne_iqbal.py', '_sunpos_one_dimensional', '''
def _time_terms(unixtime):
    doy, std_time = _calendar(unixtime)
    dayangl = _day_angle(doy, std_time)
    return (std_time, eccentricity_correction_factor(dayangl),
            equation_of_time(dayangl), solar_declination(dayangl))


def _angles(std_time, eot, declination, longitude, latitude, with_refraction):
    lat_rad = latitude*RAD
    LAT = std_time + longitude/15. + eot
    hour_angle = ((LAT % 24.) - 12.)*15.*RAD
    cos_zenith = nex('sin(declination)*sin(lat_rad) + cos(declination)*cos(lat_rad)*cos(hour_angle)')
    np.clip(cos_zenith, -1., 1., out=cos_zenith)
    sza = np.arccos(cos_zenith)
    if with_refraction is True:
        sza = _refract(sza)
    azi = nex('arctan2(-sin(hour_angle), tan(declination)*cos(lat_rad) - sin(lat_rad)*cos(hour_angle))')
    return sza, azi + PI*np.where(azi < 0, 1, -1)


def _refract(sza):
    # Simple refraction correction from Rigollier et al. (2000),
    # doi:10.1016/S0038-092X(99)00055-9
    alpha = HALFPI - sza
    num = 0.1594 + alpha*(1.1230 + alpha*0.065656)
    den = 1. + alpha*(28.9344 + alpha*277.3971)
    return (sza - 0.061359*num/den).clip(min=0., max=PI)


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    std_time, ecf, eot, declination = _time_terms(unixtime)
    sza, azi = _angles(std_time, eot, declination, longitude, latitude, with_refraction)
    return sza, azi, ecf, declination, eot * 60
'''),
    fn('libspa/ne_iqbal.py', '_sunpos_two_dimensional', '''
def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    std_time, ecf, eot, declination = _time_terms(unixtime)
    sza, azi = _angles(std_time[:, None], eot[:, None], declination[:, None],
                       longitude[None, :], latitude[None, :], with_refraction)
    return sza, azi, ecf, declination, eot * 60
'''),
    fn('libspa/ne_iqbal.py', '_sunpos_three_dimensional', '''
def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
    std_time, ecf, eot, declination = _time_terms(unixtime)
    up = lambda x: np.expand_dims(np.expand_dims(x, -1), -1)  # noqa: E731
    sza, azi = _angles(up(std_time), up(eot), up(declination),
                       longitude.reshape(1, 1, -1), latitude.reshape(1, -1, 1), with_refraction)
    return sza, azi, ecf, declination, eot * 60
'''),
]),
dict(id='py-iqbal-day-angle', edits=[
    fn('libspa/py_iqbal.py', 'day_angle', '''
def is_leap(year):
    return np.logical_or(np.logical_and(year % 4 == 0, year % 100 != 0), year % 400 == 0)


def day_angle(year, month, day, std_time):
    # day of year (1 for 1st January) and day angle
    doy = (275*month)//9 - np.where(is_leap(year), 1, 2)*((month + 9)//12) + day - 30
    return 2*np.pi*(doy + std_time/24.)/365.
'''),
]),
dict(id='py-soltrack', edits=[
    fn('libspa/py_soltrack.py', 'time_dependent_calculations', '''
def _poly(t, *coefs):
    """coefs[0] + coefs[1]*t + ..."""
    value = 0.
    for c in reversed(coefs):
        value = value*t + c
    return value


def time_dependent_calculations(unixtime):
    tJD = unixtime / 86400 - 10957.5
    tJC = tJD / 36525.0

    l0 = _poly(tJC, 4.895063168, 628.331966786, 5.291838e-6)
    ma = _poly(tJC, 6.240060141, 628.301955152, -2.682571e-6)
    omg = _poly(tJC, 2.1824390725, -33.7570464271, 3.622256e-5)
    ecc = _poly(tJC, 0.016708634, -0.000042037, -0.0000001267)
    eps0 = _poly(tJC, 0.409092804222, -2.26965525e-4, -2.86e-9)

    # equation of the centre
    sec = (_poly(tJC, 3.34161088e-2, -8.40725e-5, -2.443e-7)*np.sin(ma)
           + _poly(tJC, 3.489437e-4, -1.76278e-6)*np.sin(2*ma))
    R = 1.0000010178*(1.0 - ecc*ecc)/(1.0 + ecc*np.cos(ma + sec))

    dpsi = -8.338601e-5*np.sin(omg)
    L = l0 + sec - 9.93087e-5/R + dpsi
    obliquity = eps0 + 4.4615e-5*np.cos(omg)

    sin_L = np.sin(L)
    ra = np.mod(np.arctan2(np.cos(obliquity)*sin_L, np.cos(L)), TWOPI)
    declination = np.arcsin(np.sin(obliquity)*sin_L)

    eqeq = dpsi*np.cos(obliquity)       # equation of the equinoxes
    eot = 4*np.mod(np.rad2deg(l0 - ra + eqeq) - 0.0057183, 360)
    eot = np.select([eot < -20., eot > 20.], [eot + 1440, eot - 1440], default=eot)

    agst = 4.89496121 + 6.300388098985*tJD + 6.77e-6*tJC**2 + eqeq
    return agst, ra, declination, np.power(R, -2), eot
'''),
    fn('libspa/py_soltrack.py', '_sunpos_one_dimensional', '''
def _topocentric(ha, dec, lat_rad, with_refraction):
    alt = np.arcsin(np.clip(
        np.sin(lat_rad)*np.sin(dec) + np.cos(lat_rad)*np.cos(dec)*np.cos(ha), -1., 1.))
    azimuth = np.arctan2(np.sin(ha), np.cos(ha)*np.sin(lat_rad) - np.tan(dec)*np.cos(lat_rad))
    alt -= 4.2635e-5*np.cos(alt)
    if with_refraction is True:
        seen = alt >= -1.4545e-2
        alt = alt + seen*(2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
    return HALFPI - alt, azimuth


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    agst, ra, dec, ecf, eot = time_dependent_calculations(unixtime)
    zenith, azimuth = _topocentric(
        agst - ra + np.radians(longitude), dec, np.radians(latitude), with_refraction)
    return zenith, azimuth, ecf, dec, eot
'''),
    fn('libspa/py_soltrack.py', '_sunpos_two_dimensional', '''
def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    agst, ra, dec, ecf, eot = time_dependent_calculations(unixtime)
    ha = np.add.outer(agst - ra, np.radians(longitude))
    dec_, lat_ = np.broadcast_arrays(dec[:, None], np.radians(latitude)[None, :])
    zenith, azimuth = _topocentric(ha, dec_, lat_, with_refraction)
    return zenith, azimuth, ecf, dec, eot
'''),
]),
dict(id='ne-nrel-sums', edits=[
    ('libspa/ne_nrel.py', '''    r0, r1, r2, r3, r4 = np.sum(nex('C_R_0*cos(C_R_1+C_R_2*jme_)'), axis=1)
    R = nex('(r0 + r1 * jme + r2 * jme**2 + r3 * jme**3 + r4 * jme**4)/10**8')
''', '''    R = _series(PARAMS_R_i, jme)
'''),
    ('libspa/ne_nrel.py', '''    l0, l1, l2, l3, l4, l5 = np.sum(nex('C_LONG_0*cos(C_LONG_1+C_LONG_2*jme_)'), axis=1)
    L = nex('(RAD2DEG*(l0 + l1*jme + l2*jme**2 + l3*jme**3 + l4*jme**4 + l5*jme**5)/10**8) % 360')
''', '''    L = np.degrees(_series(PARAMS_LONG_i, jme)) % 360
'''),
    ('libspa/ne_nrel.py', '''    b0, b1 = np.sum(nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)'), axis=1)
    B = nex('RAD2DEG*(b0 + b1 * jme)/10**8')
''', '''    B = np.degrees(_series(PARAMS_LAT_i, jme))
'''),
    ('libspa/ne_nrel.py', '''def time_dependent_calculations(unixtime):
''', '''def _series(params, jme):
    """Sum of the periodic terms, as a polynomial of time."""
    total = np.zeros_like(jme)
    for power, terms in enumerate(params):
        coef = sum(a*np.cos(b + c*jme) for a, b, c in terms if a != 0)
        total = total + coef*jme**power
    return total / 1e8


def time_dependent_calculations(unixtime):
'''),
    ('libspa/ne_nrel.py', '''    epsilon0 = nex(
        '84381.448 - 4680.93*(jme/10.) - 1.55*(jme/10.)**2 + 1999.25*(jme/10.)**3 - '
        '51.38*(jme/10.)**4 - 249.67*(jme/10.)**5 - 39.05*(jme/10.)**6 + 7.12*(jme/10.)**7 + '
        '27.87*(jme/10.)**8 + 5.79*(jme/10.)**9 + 2.45*(jme/10.)**10')
''', '''    epsilon0 = np.polyval(
        [2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448],
        jme/10.)
'''),
]),
dict(id='ne-nrel-nutation', edits=[
    ('libspa/ne_nrel.py', '''    # longitude nutation
    delta_psi = np.sum(
        nex(
            '(C_NUT_A + C_NUT_B*jce_)*'
            'sin('
            '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
            '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
            '   C_NUT_Y_4*x4_)*DEG2RAD'
            ')/36000000'
        ), axis=0
    )

    # obliquity nutation
    delta_eps = np.sum(
        nex(
            '(C_NUT_C + C_NUT_D*jce_)*'
            'cos('
            '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
            '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
            '   C_NUT_Y_4*x4_)*DEG2RAD'
            ')/36000000'
        ), axis=0
    )
''', '''    # nutation, in longitude and obliquity
    X = np.stack([x0, x1, x2, x3, x4])
    arg = np.radians(PARAMS_NUTATION_YVALUES @ X)
    psi_terms = (C_NUT_A + C_NUT_B*jce_)*np.sin(arg)
    eps_terms = (C_NUT_C + C_NUT_D*jce_)*np.cos(arg)
    delta_psi = psi_terms.sum(axis=0)/36e6
    delta_eps = eps_terms.sum(axis=0)/36e6
'''),
]),
dict(id='ne-nrel-local', edits=[
    fn('libspa/ne_nrel.py', '_sunpos_one_dimensional', '''
def _topocentric(v, alpha, delta, R, lon, latrad, with_refraction):
    """Topocentric zenith and azimuth, radians."""
    H = np.radians((v + lon - alpha) % 360)
    xi = np.radians(8.794 / (3600 * R))
    u = np.arctan(0.99664719*np.tan(latrad))
    x = np.cos(u) + ELEVATION / 6378140. * np.cos(latrad)
    y = 0.99664719*np.sin(u) + ELEVATION / 6378140. * np.sin(latrad)

    east = x*np.sin(xi)*np.sin(H)
    north = np.cos(delta) - x*np.sin(xi)*np.cos(H)
    deltaa = np.arctan2(-east, north)
    deltap = np.arctan2((np.sin(delta) - y*np.sin(xi))*np.cos(deltaa), north)
    Hp = H - deltaa

    slat, clat = np.sin(latrad), np.cos(latrad)
    sin_e = slat*np.sin(deltap) + clat*np.cos(deltap)*np.cos(Hp)
    e = np.arcsin(sin_e.clip(-1., 1.))
    if with_refraction is True:
        nex = ne.evaluate
        e = nex('where(e < -1.4545e-2, e, e + k*1.7802e-2/(60*tan(e + 3.1376e-3 / (e + 8.9186e-2))))',
                local_dict={'e': e, 'k': ATM_REFR})
    azimuth = np.arctan2(np.sin(Hp), np.cos(Hp)*slat - np.tan(deltap)*clat)
    return HALFPI - e, azimuth


def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
    alpha, delta, eot, v, R = time_dependent_calculations(unixtime)
    zenith, azimuth = _topocentric(
        v, alpha, delta, R, longitude, latitude*DEG2RAD, with_refraction)
    return zenith, azimuth, R**-2., delta, eot
'''),
    fn('libspa/ne_nrel.py', '_sunpos_two_dimensional', '''
def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
    alpha, delta, eot, v, R = time_dependent_calculations(unixtime)
    zenith, azimuth = _topocentric(
        *(np.atleast_2d(x).T for x in (v, alpha, delta, R)),
        longitude[None, :], latitude[None, :]*DEG2RAD, with_refraction)
    return zenith, azimuth, np.square(1./R), delta, eot
'''),
]),
dict(id='ne-psa', edits=[
    ('libspa/ne_psa.py', '''    dXsun = np.int32(np.abs(L)/TWOPI)
    eot = nex('4*(L + TWOPI*where(L < 0., 1. + dXsun, -dXsun) - ra)*RAD2DEG')
    eot = nex('where(eot > 20., eot - 1440., eot)')
    eot = nex('where(eot < -20., eot + 1440., eot)')
''', '''    turn = np.floor(np.abs(L)/TWOPI).astype(int)
    eot = (L - ra + np.where(L < 0., 1 + turn, -turn)*TWOPI)*RAD2DEG*4
    late, early = eot > 20., eot < -20.
    eot = nex('where(late, eot - 1440., where(early, eot + 1440., eot))')
'''),
]),
dict(id='core-dispatch', edits=[
    ('_core.py', '''    if algorithm not in __ALGORITHMS__:
        raise ValueError(f'missing algorithm `{algorithm}`. Valid algorithms '
                         f'are: {", ".join(__ALGORITHMS__.keys())}')

    if engine not in __ALGORITHMS__.get(algorithm):
        raise ValueError(f'missing engine `{engine}` for algorithm '
                         f'`{algorithm}`. Valid engines for this algorithm '
                         f'are: {", ".join(__ALGORITHMS__.get(algorithm))}')
''', '''    try:
        engines = __ALGORITHMS__[algorithm]
    except KeyError:
        raise ValueError(f'missing algorithm `{algorithm}`. Valid algorithms '
                         f'are: {", ".join(__ALGORITHMS__)}') from None

    if engine not in engines.keys():
        raise ValueError(f'missing engine `{engine}` for algorithm '
                         f'`{algorithm}`. Valid engines for this algorithm '
                         f'are: {", ".join(engines)}')
'''),
    ('_core.py', '''    spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
''', '''    spa_func = getattr(engines[engine], 'sunpos')
'''),
]),
]
