"""Values of many calls, to confirm that an edit under test keeps the behaviour (development aid, no check uses it)."""
import sys
import numpy as np, pandas as pd, sunwhere
from sunwhere.utils.datetime import true_solar_time, universal_time_coordinated
out = {}
t = pd.date_range('1997-01-03T01:02:03', '2031-01-01', freq='1003h37min')
ts = {'naive': t, 'aware': t.tz_localize('America/New_York', ambiguous=True, nonexistent='shift_forward'), 'nat': np.where(np.arange(len(t)) % 5 == 2, np.datetime64('NaT'), t.values)}
n = len(t)
rng = np.random.default_rng(1)
lat, lon = rng.uniform(-90, 90, n), rng.uniform(-180, 180, n)
lat[:4] = 90, -90, 0, 66
for alg in ('psa', 'soltrack', 'iqbal', 'nrel'):
    for eng in ('numpy', 'numexpr')[alg == 'nrel':]:
        for refr in (True, False):
            for k, x in ts.items():
                for uc in ('sites', 'regular_grid', 'transect'):
                    la, lo = (lat, lon) if uc == 'transect' else (lat[:7], lon[:7])
                    r = getattr(sunwhere, uc)(x, la, lo, algorithm=alg, engine=eng, refraction=refr)
                    for q in ('zenith', 'azimuth', 'ecf', 'eot', 'declination', 'elevation', 'cosz', 'sza', 'saa', 'dec', 'true_solar_time', 'latitude', 'longitude'):
                        out[f'{alg} {eng} {refr} {k} {uc} {q}'] = getattr(r, q).values
                    for u in ('deg', 'rad', 'tst', 'utc', 'local'):
                        out[f'{alg} {eng} {refr} {k} {uc} sr {u}'] = r.sunrise(u).values
                        out[f'{alg} {eng} {refr} {k} {uc} ss {u}'] = r.sunset(u).values
                    for m in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
                        out[f'{alg} {eng} {refr} {k} {uc} am {m}'] = r.airmass(m).values
                    for m in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999'):
                        out[f'{alg} {eng} {refr} {k} {uc} eth {m}'] = r.eth(1300., m).values
                    out[f'{alg} {eng} {refr} {k} {uc} inc'] = r.incidence(30., -40.).values
                    out[f'{alg} {eng} {refr} {k} {uc} dl'] = r.daylight_length().values
                    out[f'{alg} {eng} {refr} {k} {uc} times'] = r.times_utc.tz_localize(None).values
out['tst'] = true_solar_time(t.values, lon[:5])
out['utc'] = universal_time_coordinated(t.values, lon[:5])
if sys.argv[2] == 'make':
    np.savez(sys.argv[1], **out)
else:
    ref = np.load(sys.argv[1])
    bad = []
    for k, v in out.items():
        w = ref[k]
        if v.shape != w.shape:
            bad.append((k, v.shape, w.shape))
            continue
        if v.dtype.kind in 'mM':
            na, nb = np.isnat(v), np.isnat(w)
            d = 0 if (na == nb).all() else 9e99
            if d == 0 and (~na).any():
                d = np.abs((v[~na] - w[~na]).astype('i8')).max() / 1e9
        else:
            na, nb = np.isnan(v), np.isnan(w)
            d = 0 if (na == nb).all() else 9e99
            if d == 0 and (~na).any():
                x = np.abs(v[~na] - w[~na])
                if 'azimuth' in k or 'saa' in k:
                    x = np.minimum(x, np.abs(x - 360))
                d = x.max()
        if d > (1e-3 if " eth " in k or " am " in k else 1e-5):
            bad.append((k, d))
    print('differences:', len(bad), bad[:6])
