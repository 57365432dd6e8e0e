"""PSA+ (Blanco et al., 2020): the sun position of one instant (seconds since 1970-01-01 UTC) and place (degrees)."""

import numpy as np


def distance(days):
    """Distance to the sun, AU (SolTrack, van der Sluys et al., 2022: equations 3, 4, 8, 9 and 10)."""
    t = days/36525
    anomaly = 6.240060141 + 628.301955152*t - 2.682571e-6*t**2
    centre = ((3.34161088e-2 - 8.40725e-5*t - 2.443e-7*t**2)*np.sin(anomaly)
              + (3.489437e-4 - 1.76278e-6*t)*np.sin(2*anomaly))
    e = 0.016708634 - 0.000042037*t - 0.0000001267*t**2
    return 1.0000010178*(1 - e**2)/(1 + e*np.cos(anomaly + centre))


def position(unixtime, latitude, longitude):
    days = unixtime/86400 - 10957.5                        # since 2000-01-01 12:00 UTC
    hour = 24*((unixtime/86400) % 1)
    node = 2.267127827 - 9.300339267e-4*days
    mean_longitude = 4.895036035 + 1.720279602e-2*days
    anomaly = 6.239468336 + 1.720200135e-2*days
    ecliptic = (mean_longitude + 3.338320972e-2*np.sin(anomaly) + 3.497596876e-4*np.sin(2*anomaly)
                - 1.544353226e-4 - 8.689729360e-6*np.sin(node))
    obliquity = 4.090904909e-1 - 6.213605399e-9*days + 4.418094944e-5*np.cos(node)
    right_ascension = np.arctan2(np.cos(obliquity)*np.sin(ecliptic), np.cos(ecliptic))
    declination = np.arcsin(np.sin(obliquity)*np.sin(ecliptic))
    gmst = 6.697096103 + 6.570984737e-2*days + hour
    lmst = np.radians(gmst*15 + longitude)
    angle = lmst - right_ascension
    phi = np.radians(latitude)
    cosz = np.cos(phi)*np.cos(angle)*np.cos(declination) + np.sin(declination)*np.sin(phi)
    zenith = np.arccos(cosz)
    zenith = zenith + 0.000042587565907513806*np.sin(zenith)
    azimuth = np.arctan2(-np.sin(angle), np.tan(declination)*np.cos(phi) - np.sin(phi)*np.cos(angle))    # from north
    return dict(zenith=np.degrees(zenith), azimuth=np.degrees(azimuth) - 180, declination=np.degrees(declination),
                ecf=1/distance(days)**2, eot=4*np.degrees(mean_longitude - right_ascension))
