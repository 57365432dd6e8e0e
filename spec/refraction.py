"""Refraction corrections: the zenith angle with refraction, given the geometric one (degrees)."""

import numpy as np


def psa(zenith):
    e = np.radians(90 - zenith)
    return 90 - np.degrees(np.where(e >= -1.4545e-2, e + nrel_correction(e), e))


def nrel_correction(e):
    """NREL's SPA, equation 42, in radians, at 1010 hPa and 10 C."""
    return 1.7802e-2/(60*np.tan(e + 3.1376e-3/(e + 8.9186e-2)))


def nrel(zenith):
    e = np.radians(90 - zenith)
    weather = (1013.25/1010)*(283/(273 + 12))
    return 90 - np.degrees(np.where(e >= -1.4545e-2, e + weather*nrel_correction(e), e))


def soltrack(zenith):
    e = np.radians(90 - zenith)
    correction = 2.967e-4/np.tan(e + 3.1376e-3/(e + 8.92e-2))
    return 90 - np.degrees(np.where(e >= -1.4545e-2, e + correction, e))


def iqbal(zenith):
    """Rigollier et al. (2000)."""
    e = np.radians(90 - zenith)
    correction = 0.061359*(0.1594 + 1.1230*e + 0.065656*e**2)/(1 + 28.9344*e + 277.3971*e**2)
    return np.clip(90 - np.degrees(e + correction), 0, 180)
