#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.run import checks
CHECKS = checks.CHECKS

NA = {
    'C24': 'The distance between the published algorithm and the true ephemeris is an empirical fact about the solar system over eight '
           'millennia; no argument from the source code bounds it. What the source can be held to, that it computes the published '
           'algorithm, is C04.',
    'C25': 'Execution time is a runtime quantity (CPU, threads, cache, expression compiler of numexpr); no sound static argument '
           'bounds it.',
}
PENDING = 'No check is built for it yet.'
AI = 'AST abstract interpretation: '
TECH = {
    'C01': AI + 'relational value numbering of the three entry points, index-dependence (pointwise) analysis',
    'C02': AI + 'relational value numbering of the two engines',
    'C03': AI + 'value numbering with symbolic axes, index-dependence and dimension-order analysis',
    'C04': AI + 'value numbering against the published formulas',
    'C05': AI + 'value numbering against the published formulas',
    'C06': AI + 'value numbering against the published formulas',
    'C07': AI + 'value numbering against the published formulas, case split over calendar months',
    'C08': AI + 'interval analysis of the value-number graph with guards and bisection (domains and ranges)',
    'C09': AI + 'value numbering with and without refraction against the published corrections',
    'C12': AI + 'path enumeration with interval decisions over classes of invalid input',
    'C14': AI + 'value numbering against the published formulas, call tracing of the engines',
    'C21': 'AST abstract interpretation: alias and effect analysis, relational value numbering over histories of reads and calls',
    'C10': AI + 'relational value numbering over time containers, units and zones; narrowing-cast analysis',
    'C11': AI + 'value numbering of result metadata over time containers and zones',
    'C15': AI + 'value numbering of the derived quantities against the documented relation',
    'C16': AI + 'value numbering against reference formulas, case split over polar day and night',
    'C17': AI + 'value numbering against reference formulas, obligations on wrapped time differences',
    'C18': AI + 'value numbering against reference formulas',
    'C19': AI + 'value numbering against reference formulas, case split over the horizon, interval bound',
    'C20': AI + 'value numbering against the reference formula',
    'C22': AI + 'value numbering of the printed text against the library, path enumeration over refused arguments',
    'C23': AI + 'files as abstract strings with columns of known width, value numbering of the table, path and fault enumeration, typestate of files',
    'C28': AI + 'name and attributes of every result followed through renamings, copies and arithmetic, in two orders of reading',
    'C31': AI + 'imports followed with undeclared packages missing; syntax and standard library resolved by pyright for each declared Python',
    'C32': AI + 'effect analysis of settings, output, files and connections, on normal and exceptional exits',
    'C33': AI + 'symbolic shape of every array allocated, as a polynomial of the numbers of times and places',
    'C34': AI + 'transfer function of the pickle and copy protocols over the attributes of results, value numbers of all readings of the copy',
    'C35': AI + 'value numbering over every way of binding the documented arguments; name resolution',
    'C30': AI + 'relational value numbering over types and containers of coordinates; integer overflow and narrowing analysis',
    'C29': AI + 'effect analysis: accesses to state that outlives a call, with the locks held, checked for interference between any two calls',
    'C27': AI + 'value numbering with definedness of every result where a latitude or longitude is missing',
    'C26': AI + 'shape and definedness analysis with axes of size zero, path enumeration',
    'C13': AI + 'validity (NaT) propagation in the value-numbering domain',
}
NOTE = ('Holds for all instants, places and sizes in each enumerated configuration (algorithm x engine x use case x refraction x '
        'size relation x input kind), which are enumerated exhaustively from a fixed list. Trusts the models of numpy, numexpr, pandas '
        'and xarray in /verif/sa/m_*.py; equality over the reals (rounding not analysed); value numbers are 127-bit fingerprints by '
        'random interpretation (a clash is improbable, not impossible). A construct the analyser does not model makes the check fail '
        'with exit 2 (no answer), never pass.')
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
extra = {}
try:
    from sa import manifest_text as MTX
    TECH.update(MTX.TECH); NOTES.update(MTX.NOTES)
except ImportError:
    pass
m = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 10)"', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS and i in TECH:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 -m sa.run {i} quick', thorough_cmd=f'python3 -m sa.run {i} thorough',
                                technique=TECH[i], level='other', level_note=NOTES.get(i, '') + NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in m['checks']], [c['property'] for c in m['not_applicable']])
