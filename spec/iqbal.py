"""Iqbal (1983), with the refitted series of the distance and of the equation of time."""

import numpy as np


def day_of_year(year, month, day):
    before = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])
    leap = ((year % 4 == 0) & (year % 100 != 0)) | (year % 400 == 0)
    return day + before[month - 1] + np.where(leap & (month > 2), 1, 0)


def day_angle(doy, hour):
    return 2*np.pi*(doy + hour/24)/365


def position(day_angle, hour, latitude, longitude):
    """day_angle: radians; hour: UTC hours."""
    d = day_angle
    declination = (0.006918 - 0.399912*np.cos(d) + 0.070257*np.sin(d) - 0.006758*np.cos(2*d) + 0.000907*np.sin(2*d)
                   - 0.002697*np.cos(3*d) + 0.00148*np.sin(3*d))
    ecf = (1.00012825 + 0.0333572253*np.cos(d) + 0.00199417932*np.sin(d) + 0.000697434604*np.cos(2*d)
           + 0.000114828177*np.sin(2*d) + 0.0000174028675*np.cos(3*d) + 0.0000113778023*np.sin(3*d))
    eot = (0.00986571 + 0.58688718*np.cos(d) - 7.34538133*np.sin(d) - 3.31493999*np.cos(2*d) - 9.35366541*np.sin(2*d)
           - 0.0815175*np.cos(3*d) - 0.30892409*np.sin(3*d) - 0.13532889*np.cos(4*d) - 0.1733622*np.sin(4*d))
    angle = np.radians(15*(hour + longitude/15 + eot/60 - 12))       # of the true solar time
    phi = np.radians(latitude)
    zenith = np.arccos(np.sin(declination)*np.sin(phi) + np.cos(declination)*np.cos(phi)*np.cos(angle))
    azimuth = np.arctan2(np.sin(angle), np.cos(angle)*np.sin(phi) - np.tan(declination)*np.cos(phi))    # from south
    return dict(zenith=np.degrees(zenith), azimuth=np.degrees(azimuth), declination=np.degrees(declination), ecf=ecf, eot=eot)
