"""SolTrack (van der Sluys and van Kan, 2022): the sun position of one instant (seconds since 1970-01-01 UTC) and place."""

import numpy as np


def position(unixtime, latitude, longitude):
    days = unixtime/86400 - 10957.5                        # since 2000-01-01 12:00 UTC
    t = days/36525
    l0 = 4.895063168 + 628.331966786*t + 5.291838e-6*t**2                          # 2
    m = 6.240060141 + 628.301955152*t - 2.682571e-6*t**2                           # 3
    c = ((3.34161088e-2 - 8.40725e-5*t - 2.443e-7*t**2)*np.sin(m)
         + (3.489437e-4 - 1.76278e-6*t)*np.sin(2*m))                               # 4
    true_longitude = l0 + c                                                        # 5
    node = 2.1824390725 - 33.7570464271*t + 3.622256e-5*t**2                       # 6
    dpsi = -8.338601e-5*np.sin(node)                                               # 7
    e = 0.016708634 - 0.000042037*t - 0.0000001267*t**2                            # 8
    distance = 1.0000010178*(1 - e**2)/(1 + e*np.cos(m + c))                       # 9, 10
    longitude_app = true_longitude - 9.93087e-5/distance + dpsi                    # 12, 13
    obliquity = (0.409092804222 - 2.26965525e-4*t - 2.86e-9*t**2) + 4.4615e-5*np.cos(node)     # 15-17
    ra = np.arctan2(np.cos(obliquity)*np.sin(longitude_app), np.cos(longitude_app))            # 18
    dec = np.arcsin(np.sin(obliquity)*np.sin(longitude_app))                       # 19
    gmst = 4.89496121 + 6.300388098985*days + 6.77e-6*t**2                         # 22
    angle = gmst + dpsi*np.cos(obliquity) - ra + np.radians(longitude)             # 20, 21, 23
    phi = np.radians(latitude)
    altitude = np.arcsin(np.sin(phi)*np.sin(dec) + np.cos(phi)*np.cos(dec)*np.cos(angle))      # 24
    azimuth = np.arctan2(np.sin(angle), np.cos(angle)*np.sin(phi) - np.tan(dec)*np.cos(phi))   # 25, zero at south
    altitude = altitude - 4.2635e-5*np.cos(altitude)                               # parallax
    eot = 4*(np.degrees(l0 - ra + dpsi*np.cos(obliquity)) - 0.0057183)
    return dict(zenith=90 - np.degrees(altitude), azimuth=np.degrees(azimuth), declination=np.degrees(dec),
                ecf=1/distance**2, eot=eot)
