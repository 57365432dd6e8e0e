"""Edits that keep the behaviour, near the latest repairs (JPL reader, command line)."""
EDITS = []
J, P = 'utils/jpl_horizons.py', '_cli/position.py'


def edit(id, *edits):
    EDITS.append(dict(id=id, edits=list(edits)))


edit('jpl-helper',
     (J, "def load_jpl_ephemeris(", "def _stem(year, lon, lat):\n    return '_'.join(['jpl_ephemeris_highres', str(year), str(lon), str(lat)])\n\n\ndef load_jpl_ephemeris("),
     (J, "    basename = f'jpl_ephemeris_highres_{year}_{site_lon}_{site_lat}'\n", "    basename = _stem(year, site_lon, site_lat)\n"))
edit('jpl-suffix',
     (J, "    whole_data_filename = out_dir / f'{basename}.parquet'\n", "    whole_data_filename = out_dir.joinpath(basename + '.parquet')\n"),
     (J, "            out_filename = out_dir / f'{basename}-{month:02d}.txt'\n", "            out_filename = out_dir.joinpath('{}-{:02d}.txt'.format(basename, month))\n"))
edit('jpl-percent',
     (J, "    basename = f'jpl_ephemeris_highres_{year}_{site_lon}_{site_lat}'\n", "    basename = 'jpl_ephemeris_highres_%d_%s_%s' % (year, site_lon, site_lat)\n"))
edit('jpl-dir',
     (J, "    out_dir = Path('data')\n    if not out_dir.exists():\n        out_dir.mkdir(parents=True, exist_ok=True)\n", "    out_dir = Path('data')\n    out_dir.mkdir(parents=True, exist_ok=True)\n"))
edit('jpl-early',
     (J, "    if not whole_data_filename.exists():\n        data = []\n", "    if whole_data_filename.is_file():\n        return pd.read_parquet(whole_data_filename)\n    if True:\n        data = []\n"))
edit('jpl-missing',
     (J, "                filenames.append(out_filename)\n                logger.success('data downloaded')\n", "                filenames += [out_filename]\n                logger.success('data downloaded')\n"),
     (J, "        for filename in filenames:\n            filename.unlink()\n", "        while filenames:\n            filenames.pop().unlink(missing_ok=True)\n"))
edit('jpl-insert',
     (J, "        df.insert(0, 'site_lat', site_lat)\n        df.insert(0, 'site_lon', site_lon)\n", "        for column, value in (('site_lat', site_lat), ('site_lon', site_lon)):\n            df.insert(0, column, value)\n"))
edit('cli-helper',
     (P, "def calculate_position(", "def minutes_seconds(eot):\n    minutes, tenths = divmod(round(600*abs(eot)), 600)\n    return f\"{'-' if eot < 0 else ''}{minutes:d}:{tenths/10:.1f} min\"\n\n\ndef calculate_position("),
     (P, "            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'\n", "            'Equation of time': minutes_seconds(eot)\n"))
edit('cli-floor',
     (P, "    eot_min, eot_sec = divmod(round(600*abs(eot)), 600)\n", "    tenths = int(round(abs(600*eot)))\n    eot_min = tenths // 600\n    eot_sec = tenths % 600\n"))
edit('cli-sign',
     (P, "    eot_min = ('-' if eot < 0 else '') + str(eot_min)\n    eot_sec = eot_sec / 10\n", "    eot_min = f'-{eot_min}' if eot < 0 else f'{eot_min}'\n    eot_sec *= 0.1\n"))
edit('cli-values',
     (P, "    eot = sw.eot.isel(time=0).item()\n", "    eot = float(sw.eot.values[0])\n"))
edit('cli-int',
     (P, "    eot_min, eot_sec = divmod(round(600*abs(eot)), 600)\n", "    total = round(600*abs(eot))\n    eot_min = int(total / 600)\n    eot_sec = total - 600*eot_min\n"))
edit('cli-sun',
     (P, """    sr_utc = pd.Timestamp(sw.sunrise(units="utc").isel(time=0, location=0).item())
    ss_utc = pd.Timestamp(sw.sunset(units="utc").isel(time=0, location=0).item())
    sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
    ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
""", """    sr_utc, sr_local, ss_utc, ss_local = (
        pd.Timestamp(method(units=units).isel(time=0, location=0).item())
        for method in (sw.sunrise, sw.sunset) for units in ('utc', 'local'))
"""))
