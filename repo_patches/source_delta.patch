From 94cca7aeb70cea10c7a8a3a911df361600ab2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 01/21] fix: sunrise and sunset raise ValueError for unknown
 units, as documented

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..90e32c3 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -441,7 +441,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units `{units}`')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -510,7 +511,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units `{units}`')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
-- 
2.43.0


From 48d70f0caa80ed1706346b13e2c434036ecff34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 02/21] fix: sunset in degrees and radians (UnboundLocalError)

---
 src/sunwhere/_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 90e32c3..226face 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -519,11 +519,9 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            # the hour angle is positive in the morning (see `incidence`)
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From 7aa25ef4369b5cc19f9b7ba44e9f808969854ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 03/21] fix: true_solar_time and universal_time_coordinated
 read the equation of time from a dict

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From e12ac4d1b7cdd6e53e3a2c64ef66c162d7166e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 04/21] fix: keep the time zone of the input times, whatever
 its type

---
 src/sunwhere/_base.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 226face..c132d18 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -48,28 +48,22 @@ class Sunpos:
             ValueError: if the inputs are not of the proper type or shape
         """
 
-        # I need that self._times is timezone-aware and ndmin==1. To ensure
-        # ndmin==1, I must convert to a numpy datetime64, but numpy complains
-        # when dealing with timezone-aware times. Hence, first I use
-        # pd.to_datetime to retain the timezone of the input times (if
-        # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
+        # I need that self._times is a timezone-aware DatetimeIndex. Timezone-naive
+        # input times are UTC. Timezone-aware input times retain their time zone,
+        # whatever its type. They are not de-localized and localized back because
+        # the local times are ambiguous when clocks go back. The copy prevents
+        # sharing memory with the input times
         _times = pd.to_datetime(times)
 
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
+        if isinstance(_times, pd.Timestamp):
+            _times = pd.DatetimeIndex([_times])
 
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+        if _times.tz is None:
+            _times = _times.tz_localize('UTC')
 
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        self._timezone = str(_times.tz)
+        self._times = _times.as_unit('ns').copy(deep=True)
+        self._times_utc = self._times.tz_convert('UTC')
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From 2ac1236dd180aeb292c401a505e23322a84883c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 05/21] fix: no NaN zenith when rounding takes its cosine
 beyond 1, nor six-digit rounding of it

---
 src/sunwhere/libspa/ne_iqbal.py    | 6 +++---
 src/sunwhere/libspa/ne_nrel.py     | 6 +++---
 src/sunwhere/libspa/ne_psa.py      | 6 +++---
 src/sunwhere/libspa/ne_soltrack.py | 6 +++---
 src/sunwhere/libspa/py_iqbal.py    | 6 +++---
 src/sunwhere/libspa/py_psa.py      | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 7 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..0fe3850 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +203,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +265,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    sza_rad = np.arccos(np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..15fefc2 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -227,7 +227,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -280,7 +280,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -333,7 +333,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    e = np.arcsin(np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.))
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..366b149 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +169,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +211,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    zenith = np.arccos(np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.))
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..c80f543 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -182,7 +182,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..20613a1 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +198,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +259,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..a0a9547 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -129,7 +129,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +173,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..d98d8ed 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From a874366a1d7ca2302ff0059900432ac55acbb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 06/21] fix: soltrack refraction diverges below the horizon

---
 src/sunwhere/libspa/ne_soltrack.py | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index c80f543..da6c968 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -152,7 +152,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
@@ -187,7 +188,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
@@ -223,7 +225,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index d98d8ed..b352c80 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +196,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +245,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        # the formula diverges 5 degrees below the horizon. The NREL's SPA threshold is used
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From 8900de2e1036fb4cb3b81ede358455538f0a4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 07/21] fix: iqbal refraction takes the zenith out of [0, 180]

---
 src/sunwhere/libspa/ne_iqbal.py | 6 +++---
 src/sunwhere/libspa/py_iqbal.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 0fe3850..6671041 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -153,7 +153,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -214,7 +214,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -276,7 +276,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 20613a1..854696f 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -149,7 +149,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -208,7 +208,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -269,7 +269,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        sza_rad = np.clip(HALFPI - (alpha + refcor), 0., PI)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From 7b31814d1be62f81517322ffe5ca1c7ca4bfc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 08/21] fix: truthy refraction values other than True (e.g.,
 numpy booleans) are ignored

---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..e53f8e3 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From 40754c052d1622416953f86b42aca61f4e30fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 09/21] fix: "now" and aware times in the command line are
 converted to the time zone, not relabelled

---
 src/sunwhere/_cli/position.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..f2334f9 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,10 +1,8 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
-import numpy as np
 import pandas as pd
 
 import sunwhere
@@ -19,11 +17,12 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        ts = pd.Timestamp.now(tz=timezone)
+    else:
+        ts = pd.to_datetime(time)
+        ts = ts.tz_localize(timezone) if ts.tz is None else ts.tz_convert(timezone)
 
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
+    times = pd.DatetimeIndex([ts])
 
     sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
 
@@ -35,8 +34,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_min = int(eot)
     eot_sec = 60*(abs(eot) % 1)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
-- 
2.43.0


From f3e2af95541ef7450ffccd848945549f229a9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 10/21] fix: the command line loses the sign of the equation of
 time between -1 and 0 minutes

---
 src/sunwhere/_cli/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index f2334f9..00215e9 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -31,7 +31,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
+    eot_min = ('-' if eot < 0 else '') + str(int(abs(eot)))
     eot_sec = 60*(abs(eot) % 1)
 
     s = pd.Series(
-- 
2.43.0


From 6075ea5bbac9b6592c41938344bc7cd447c91162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 11/21] fix: the downloaded ephemeris file is left open

---
 src/sunwhere/utils/jpl_horizons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..f3c162b 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -66,7 +66,7 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-    path.open(mode='w').write(data)
+    path.write_text(data)
 
     return path
 
-- 
2.43.0


From cf5d6cee73f1845b7e14802c37f084aba3cd2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/21] fix: load_jpl_ephemeris drops a column that is not
 there and localizes aware times

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index f3c162b..f5fc344 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -119,7 +119,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -129,4 +129,4 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From 7dd26fb6992b0f2699f520de5d557e734011fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 13/21] fix: secular terms of the NREL nutation are per Julian
 century, not millennium

Reda and Andreas (2008), Eqs. 25 and 26: (a + b JCE) sin(...) and (c + d JCE) cos(...).
---
 src/sunwhere/libspa/ne_nrel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 15fefc2..bc3984b 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -86,6 +86,7 @@ def time_dependent_calculations(unixtime):
 
     # julian ephemeris century
     jce = nex('(jde - 2451545) / 36525')
+    jce_ = jce[None, :]
 
     # julian ephemeris millenium
     jme = nex('jce / 10')
@@ -132,7 +133,7 @@ def time_dependent_calculations(unixtime):
     # longitude nutation
     delta_psi = np.sum(
         nex(
-            '(C_NUT_A + C_NUT_B*jme_)*'
+            '(C_NUT_A + C_NUT_B*jce_)*'
             'sin('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
@@ -144,7 +145,7 @@ def time_dependent_calculations(unixtime):
     # obliquity nutation
     delta_eps = np.sum(
         nex(
-            '(C_NUT_C + C_NUT_D*jme_)*'
+            '(C_NUT_C + C_NUT_D*jce_)*'
             'cos('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
-- 
2.43.0


From 7e3647cecdde4c042718f18466d74ba7f567c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 14/21] fix: the command line fails if sunrise or sunset fall
 in a clock change

They are printed without their zone, and localizing the UTC time as if it were local raises
NonExistentTimeError or AmbiguousTimeError at clock changes.
---
 src/sunwhere/_cli/position.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 00215e9..9f2d3ee 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -46,10 +46,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': f'{sr_utc:%H:%M:%S}',
+            'Sunset(UTC)': f'{ss_utc:%H:%M:%S}',
+            f'Sunrise({timezone})': f'{sr_local:%H:%M:%S}',
+            f'Sunset({timezone})': f'{ss_local:%H:%M:%S}',
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From a0d2e9a842730493ffa4908e1303912f0c7f3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 15/21] fix: the command line fails in polar day and polar
 night

---
 src/sunwhere/_cli/position.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 9f2d3ee..0a9c33f 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -11,6 +11,11 @@ import sunwhere
 locale.setlocale(locale.LC_TIME, locale.getlocale())
 
 
+def clock(ts):
+    # there is neither sunrise nor sunset in polar day and polar night
+    return '--' if pd.isna(ts) else f'{ts:%H:%M:%S}'
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -46,10 +51,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc:%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc:%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local:%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local:%H:%M:%S}',
+            'Sunrise(UTC)': clock(sr_utc),
+            'Sunset(UTC)': clock(ss_utc),
+            f'Sunrise({timezone})': clock(sr_local),
+            f'Sunset({timezone})': clock(ss_local),
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 78fcc95176d9fe85b4bd5e5bcb1f6eebfa0031a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 16/21] fix: nrel fails without times or if all of them are
 missing

---
 src/sunwhere/libspa/ne_nrel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index bc3984b..cc83346 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -90,18 +90,23 @@ def time_dependent_calculations(unixtime):
 
     # julian ephemeris millenium
     jme = nex('jce / 10')
-    jme_ = jme[None, :]
+
+    def periodic_sums(a, b, c):
+        # explicit broadcast because numexpr does not broadcast empty arrays,
+        # as when there are no times or all of them are missing
+        x = np.broadcast_to(jme, a.shape[:2] + jme.shape)
+        return np.sum(nex('a*cos(b+c*x)'), axis=1)
 
     # heliocentric radius vector
-    r0, r1, r2, r3, r4 = np.sum(nex('C_R_0*cos(C_R_1+C_R_2*jme_)'), axis=1)
+    r0, r1, r2, r3, r4 = periodic_sums(C_R_0, C_R_1, C_R_2)
     R = nex('(r0 + r1 * jme + r2 * jme**2 + r3 * jme**3 + r4 * jme**4)/10**8')
 
     # heliocentric longitude, degrees
-    l0, l1, l2, l3, l4, l5 = np.sum(nex('C_LONG_0*cos(C_LONG_1+C_LONG_2*jme_)'), axis=1)
+    l0, l1, l2, l3, l4, l5 = periodic_sums(C_LONG_0, C_LONG_1, C_LONG_2)
     L = nex('(RAD2DEG*(l0 + l1*jme + l2*jme**2 + l3*jme**3 + l4*jme**4 + l5*jme**5)/10**8) % 360')
 
     # heliocentric latitude, degrees
-    b0, b1 = np.sum(nex('C_LAT_0*cos(C_LAT_1+C_LAT_2*jme_)'), axis=1)
+    b0, b1 = periodic_sums(C_LAT_0, C_LAT_1, C_LAT_2)
     B = nex('RAD2DEG*(b0 + b1 * jme)/10**8')
 
     # geocentric longitude
-- 
2.43.0


From e21003b180cf875ccf1fd65ecdd0465621938622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 17/21] fix: the incidence for a missing longitude is a number
 instead of missing

---
 src/sunwhere/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index c132d18..e4c7ff6 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -552,9 +552,9 @@ class Sunpos:
         """
         # hour angle...
         tst = self.true_solar_time.to_numpy()
+        # (the ratio of timedeltas turns NaT into NaN)
         hour = self.true_solar_time.copy(
-            data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') * 1e-9 / 3600
+            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0


From 2b5b1068693dc8f1c169901be5e37a126a129faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 18/21] fix: eth() does not carry the range of cosz

---
 src/sunwhere/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index e4c7ff6..d020384 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -349,7 +349,8 @@ class Sunpos:
         else:
             raise ValueError(f'unknown am_correction {am_correction}')
 
-        return (eth*corr).rename('eth').assign_attrs(
+        # (the range of cosz is not that of eth)
+        return (eth*corr).rename('eth').drop_attrs().assign_attrs(
             units='W m-2',
             description='extraterrestrial horizontal solar irradiance')
 
-- 
2.43.0


From 1a48a26c21559722d39ccb399a5813a306054659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 19/21] fix: longitudes of narrow integer types overflow in the
 time conversions

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index 61c6974..a55c920 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -7,7 +7,7 @@ from .._core import evaluate
 def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
@@ -25,7 +25,7 @@ def true_solar_time(times_utc, longitude):
 def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
-- 
2.43.0


From b90952b069994d803aad97ebdf21dcb3e17eb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:36 +0000
Subject: [PATCH 20/21] fix: do not return the JPL ephemeris of another site
 from the files kept on disk

---
 src/sunwhere/utils/jpl_horizons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index f5fc344..1b0c24f 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -105,12 +105,14 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
+    # the site is part of the name, or the ephemeris of another site would be returned
+    basename = f'jpl_ephemeris_highres_{year}_{site_lon}_{site_lat}'
+    whole_data_filename = out_dir / f'{basename}.parquet'
     if not whole_data_filename.exists():
         data = []
         filenames = []
         for month in range(1, 13):
-            out_filename = out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt'
+            out_filename = out_dir / f'{basename}-{month:02d}.txt'
             if not out_filename.exists():
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-- 
2.43.0


From bbdf6c9043ac67305c3b3a626a65c074327da35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:40 +0000
Subject: [PATCH 21/21] fix: the command line printed 60 seconds of the
 equation of time instead of the next minute

---
 src/sunwhere/_cli/position.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 0a9c33f..50ed30a 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -36,8 +36,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = ('-' if eot < 0 else '') + str(int(abs(eot)))
-    eot_sec = 60*(abs(eot) % 1)
+    # rounded before it is split, or 3.9995 minutes would be 3:60.0
+    eot_min, eot_sec = divmod(round(600*abs(eot)), 600)
+    eot_min = ('-' if eot < 0 else '') + str(eot_min)
+    eot_sec = eot_sec / 10
 
     s = pd.Series(
         {
-- 
2.43.0

