PRE = '''
import re
from typer.testing import CliRunner
import numpy as np, pandas as pd, sunwhere
from sunwhere._cli.main import app


def at(*args):
    r = CliRunner().invoke(app, ['at', *args])
    rows = {}
    for l in r.output.splitlines():
        c = [x.strip() for x in re.split('[\u2551\u2502]', l) if x.strip()]
        if len(c) == 2:
            rows[c[0]] = c[1]
    return r.exit_code, rows
'''
BUGS = [
dict(id='c22-casefold', property='C22',
     edits=[('_cli/main.py', "    hemisphere = lon_str[-1].casefold()\n    assert hemisphere in ('e', 'w')\n    longitude = (-1, 1)[hemisphere == 'e'] * float(lon_str[:-1])", "    hemisphere = lon_str[-1]\n    assert hemisphere.casefold() in ('e', 'w')\n    longitude = (-1, 1)[hemisphere == 'E'] * float(lon_str[:-1])")],
     demo=PRE + '''
code, rows = at('2022-06-21T12:00', '40N', '3.5e')
assert code == 0 and rows['Longitude'].startswith('3.5000'), (code, rows)
''',
     needs='an eastern longitude with a lower case e',
     breaks='3.5e is taken as 3.5W'),
dict(id='c22-pole', property='C22',
     edits=[('_cli/main.py', "    assert -90 <= latitude <= 90\n", "    assert -90 <= latitude < 90\n")],
     demo=PRE + '''
code, rows = at('2022-06-21T12:00', '90N', '3.5E')
assert code == 0, code
''',
     needs='the north pole', breaks='the north pole is refused'),
dict(id='c22-longitude', property='C22',
     edits=[('_cli/main.py', "    assert -180 <= longitude < 180\n", "    assert abs(longitude) <= 360\n    longitude = (longitude + 180) % 360 - 180\n")],
     demo=PRE + '''
code, rows = at('2022-06-21T12:00', '40N', '200E')
assert code != 0, rows
''',
     needs='a longitude beyond 180 degrees', breaks='longitudes out of range are accepted and wrapped'),
dict(id='c22-exit', property='C22',
     edits=[('_cli/main.py', "        typer.echo(str(exc))\n        raise typer.Exit(code=1)\n\n\n@app.command(help=\"performs a benchmark", "        typer.echo(str(exc))\n        raise typer.Exit()\n\n\n@app.command(help=\"performs a benchmark")],
     demo=PRE + '''
code, rows = at('2022-06-21T12:00', '40N', '20E', '-a', 'unknown')
assert code != 0
''',
     needs='an argument the library refuses', breaks='the exit status of a failed command is 0'),
dict(id='c22-sunset', property='C22',
     edits=[('_cli/position.py', "    ss_local = pd.Timestamp(sw.sunset(units=\"local\").isel(time=0, location=0).item())\n", "    ss_local = ss_utc.tz_localize('UTC').tz_convert(times.tz).replace(tzinfo=None) if ss_utc.day == ts.day else ss_utc\n")],
     demo=PRE + '''
code, rows = at('2022-06-21T08:00', '40N', '120W', '-z', 'America/Los_Angeles')
t = pd.DatetimeIndex(['2022-06-21T08:00']).tz_localize('America/Los_Angeles')
v = pd.Timestamp(sunwhere.sites(t, 40., -120., algorithm='psa', refraction=True).sunset(units='local').values.item())
assert rows['Sunset(America/Los_Angeles)'] == f'{v:%H:%M:%S}', (rows, v)
''',
     needs='a place where the sunset in UTC falls in the next day', breaks='the local sunset printed is the one in UTC'),
dict(id='c22-distance', property='C22',
     edits=[('_cli/position.py', "{1/(sw.ecf.isel(time=0)**0.5):.4f} AU", "{1/sw.ecf.isel(time=0):.4f} AU")],
     demo=PRE + '''
code, rows = at('2022-01-04T12:00', '40N', '0E')
t = pd.DatetimeIndex(['2022-01-04T12:00'])
e = sunwhere.sites(t, 40., 0., algorithm='psa').ecf.values[0]
assert rows['Sun-Earth distance'] == f'{e**-0.5:.4f} AU', rows
''',
     needs='a day away from the equinoxes', breaks='the distance printed is the inverse of the correction factor'),
dict(id='c22-refraction', property='C22',
     edits=[('_cli/position.py', "    sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)\n", "    sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction or algorithm == 'nrel')\n")],
     demo=PRE + '''
code, rows = at('2022-06-21T05:00', '40N', '0E', '-a', 'nrel', '--no-refraction')
t = pd.DatetimeIndex(['2022-06-21T05:00'])
z = sunwhere.sites(t, 40., 0., algorithm='nrel', refraction=False).sza.values.item()
assert rows['Zenith'].startswith(f'{z:.4f}'), (rows, z)
''',
     needs='--no-refraction together with the nrel algorithm', breaks='refraction is corrected although the user refused it'),
dict(id='c22-date', property='C22',
     edits=[('_cli/position.py', "ts.strftime(\"%d %B %Y\")", "pd.Timestamp(sw.times_utc[0]).strftime(\"%d %B %Y\")")],
     demo=PRE + '''
code, rows = at('2022-06-21T20:00', '40N', '120W', '-z', 'America/Los_Angeles')
assert rows['Date'].startswith('21 '), rows
''',
     needs='an evening whose UTC date is the next day', breaks='the date printed is the UTC date'),
dict(id='c22-eot', property='C22',
     edits=[('_cli/position.py', "    eot_sec = 60*(abs(eot) % 1)\n", "    eot_sec = 60*(eot % 1)\n")],
     demo=PRE + '''
code, rows = at('2022-02-11T12:00', '40N', '0E')
t = pd.DatetimeIndex(['2022-02-11T12:00'])
e = sunwhere.sites(t, 40., 0., algorithm='psa').eot.values[0]
assert e < 0 and rows['Equation of time'] == f'-{int(abs(e))}:{60*(abs(e) % 1):.1f} min', (rows, e)
''',
     needs='a negative equation of time', breaks='the seconds of a negative equation of time are complemented to 60'),
]
