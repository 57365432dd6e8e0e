"""The documented meaning of the derived quantities, for one instant and place (angles in degrees, times in seconds)."""

import numpy as np


def elevation(zenith):
    return 90. - zenith


def cosz(zenith):
    return np.cos(np.radians(zenith))


def sunrise_cos(latitude, declination):
    return -np.tan(np.radians(latitude))*np.tan(np.radians(declination))


def sunrise_rad(latitude, declination):
    return np.arccos(sunrise_cos(latitude, declination))


def sunrise_deg(latitude, declination):
    return np.degrees(sunrise_rad(latitude, declination))


def daylight_length(latitude, declination):
    return 2*sunrise_deg(latitude, declination)/15


def true_solar_time(utc, longitude, eot):
    return utc + 60*(4*longitude + eot)


def midnight(t):
    return np.floor(t/86400)*86400


def clock(event, unit, utc, longitude, latitude, eot, declination, utcoffset):
    """Seconds since the epoch, on the clock of `unit`, of sunrise (event = -1) or sunset (event = +1)."""
    hours = 12 + event*sunrise_deg(latitude, declination)/15
    t = midnight(true_solar_time(utc, longitude, eot)) + 3600*hours
    if unit in ('utc', 'local'):
        t = t - 60*(4*longitude + eot)
    if unit == 'local':
        t = t + utcoffset
    return t


def eth(isc, ecf, zenith, factor):
    return isc*ecf*np.maximum(0., cosz(zenith))*factor


def perez_1990(am):
    return 0.1 + 1.031*np.exp(-1.4/(0.9 + 9.4/am))


def skarveith_1998(zenith):
    return 0.83 - 0.56*np.exp(-0.06*(90. - zenith))


def gonzalez_and_calbo_1999(am):
    return 0.229 + 0.957*np.exp(-1.74*am*(0.124 - 0.0285*np.log(am)))


def kasten_1965(z):
    return 1/(cosz(z) + 0.15*(93.885 - z)**(-1.253))


def kasten_and_young_1989(z):
    return 1/(cosz(z) + 0.50572*(96.07995 - z)**(-1.6364))


def gueymard_2001(z):
    return 1/(cosz(z) + 0.45665*z**0.07*(96.4836 - z)**(-1.697))


def gueymard_2003(z):
    return 1/(cosz(z) + 0.48353*z**0.095846*(96.741 - z)**(-1.754))


def incidence(slope, azimuth, latitude, declination, tst):
    """Scalar product of the unit vectors towards the sun and normal to the surface (axes: south, east, up)."""
    phi, delta = np.radians(latitude), np.radians(declination)
    hour = (tst - midnight(tst))/3600
    omega = np.radians(15*(12 - hour))                      # positive in the morning
    sun_up = np.sin(phi)*np.sin(delta) + np.cos(phi)*np.cos(delta)*np.cos(omega)
    sun_east = np.cos(delta)*np.sin(omega)
    sun_south = np.sin(phi)*np.cos(delta)*np.cos(omega) - np.cos(phi)*np.sin(delta)
    beta, gamma = np.radians(slope), np.radians(azimuth)
    return (np.cos(beta)*sun_up
            + np.sin(beta)*np.sin(gamma)*sun_east
            + np.sin(beta)*np.cos(gamma)*sun_south)
