"""C21: what the writers and the scripts leave on disk, in scratch folders."""
import csv
import itertools
import json
import os
import subprocess

import core
import rasters
import scripts
from props import c18, c19

PID = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'all files are written in scratch folders; attribute names are within the 10 characters of the shapefile format',
    'tables, features, write sequences and synthetic rasters from the stated complete sets',
]
WRITERS = ('area', 'p2p', 'area_2tiles', 'p2p_2tiles')


# ---------------------------------------------------------------------------- reading back

def parsed(path):
    with open(path, newline='') as f:
        return list(csv.reader(f))


def table_text(rows):
    """The cells a file of these rows holds"""
    head = list(rows[0])
    return [head] + [[str(r[k]) if r[k] is not None else '' for k in head] for r in rows]


def same_cell(a, b):
    if a == b:
        return True
    try:
        return float(a) == float(b)
    except ValueError:
        return False


def judge_csv(path, rows):
    if not os.path.isfile(path):
        return 'there is no file %s' % os.path.basename(path)
    got, want = parsed(path), table_text(rows)
    if len(got) != len(want):
        return '%d lines in the file, expected %d' % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if len(g) != len(w) or not all(map(same_cell, g, w)):
            return 'line %d is %r, expected %r' % (i, g, w)
    return None


TABLES = {
    'one': [{'a': 1, 'b': 2.5}],
    'one again': [{'a': 9, 'b': -1.5}],
    'two again': [{'distance_km': 10, 'loss': 1.25}, {'distance_km': 30, 'loss': 98.7654321012345}],
    'longer': [{'distance_km': 10, 'loss': 98.7654321012345}, {'distance_km': 20, 'loss': -3.0}, {'distance_km': 30, 'loss': 0.0}],
    'long': [{'i': i, 'v': (i * 7919) % 1000 / 8} for i in range(3000)],
    'wide': [{'c%03d' % i: i + j for i in range(120)} for j in range(3)],
    'two': [{'distance_km': 10, 'loss': 98.7654321012345}, {'distance_km': 20, 'loss': -3.0}],
    'many': [{'distance_km': i, 'confidence_level_%': i % 3, 'propagation_loss_dB': 100 + i / 7} for i in range(300)],
    'text': [{'name': 'a,b', 'note': 'say "x"', 'v': 0}, {'name': 'two\nlines', 'note': '', 'v': 1e-12}, {'name': 'é', 'note': ' s ', 'v': 3}],
    'moved': [{'z': 1, 'a': 2, 'm': 3}, {'a': 5, 'm': 6, 'z': 4}],
    'same': [{'q': 7}, {'q': 7}, {'q': 7}],
    'empty cells': [{'a': None, 'b': 1, 'c': ''}, {'a': 2.5, 'b': None, 'c': 'x'}, {'a': 0, 'b': False, 'c': None}],
    'repeats': [{'d': 10, 'l': 1.5}, {'d': 10, 'l': 2.5}, {'d': 20, 'l': 2.5}, {'d': 10, 'l': 1.5}],
    'unsorted': [{'d': 30, 'l': 1.5}, {'d': 10, 'l': 9.5}, {'d': 20, 'l': -2.5}],
    'odd': [{'': 1, 'x y': 2, 'L%': float('inf')}, {'': -0.0, 'x y': 1e300, 'L%': 123456789012345678}],
}
BYSTANDERS = ['other.csv', 'out.csv.bak', 'out', 'out.txt', 'out_old.csv', 'outer.dat', '.out.csv', 'OUT.csv', 'b', os.path.join('out.d', 'out.csv'), 'note.txt']


def furnish(folder):
    for name in BYSTANDERS:
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('keep,me\n%s,2\n' % name)


def furniture(folder):
    """A message when one of them is gone or changed"""
    for name in BYSTANDERS:
        path = os.path.join(folder, name)
        if not os.path.isfile(path):
            return 'the file %s of the folder is gone' % name
        with open(path) as f:
            if f.read() != 'keep,me\n%s,2\n' % name:
                return 'the file %s of the folder was changed' % name
    return None


FOLDERS = ['here', 'new', os.path.join('a', 'b', 'c'), 'with space']


def write_case(ops):
    """ops: (module, table, folder, file name); the folder tree must hold exactly the last table of every file"""
    try:
        with rasters.scratch() as top:
            os.makedirs(os.path.join(top, 'here'))
            furnish(os.path.join(top, 'here'))
            others = {os.path.join(top, 'here', n) for n in BYSTANDERS}
            expected = {}
            for module, table, folder, name in ops:
                rows = [dict(r) for r in TABLES[table]]
                with scripts.quiet():
                    scripts.load(module).csv_writer(rows, os.path.join(top, folder), name)
                if rows != TABLES[table]:
                    return 'the rows were changed'
                expected[os.path.join(top, folder, name)] = TABLES[table]
                for path in expected:
                    m = judge_csv(path, expected[path])
                    if m:
                        return '%s: %s' % (os.path.relpath(path, top), m)
                m = furniture(os.path.join(top, 'here'))
                if m:
                    return m
                found = {os.path.join(d, n) for d, _, names in os.walk(top) for n in names}
                if found != set(expected) | others:
                    return 'files %r' % sorted(os.path.relpath(p, top) for p in found ^ (set(expected) | others))
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def writes(chunk, rec):
    for ops in chunk:
        case = dict(kind='csv', ops=[list(o) for o in ops])
        rec.current = case
        rec.states += 1
        rec.transitions += len(ops)
        m = write_case(ops)
        rec.outcome(tuple(ops))
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


# ---------------------------------------------------------------------------- shapefiles

def point(x, y, **props):
    return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': props}


def line(coords, **props):
    return {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': coords}, 'properties': props}


SHAPES = {
    'site': [point(-0.07491679518573545, 51.42413477117786, id='Crystal Palace radio transmitter')],
    'points': [point(0.01 * i, 51.5 - 0.003 * i, elevation=3.25 * i - 7) for i in range(40)],
    'line': [line([(26.5, -3.5), (27.25, -3.75)], id='terrain path')],
    'mixed': [point(10.5, -20.25, name='a', height=12.5, count=7), point(-170.125, 80.5, name='', height=-0.5, count=-3)],
    'single': [point(0.0, 0.0, elevation=0.0)],
    'repeats': [point(1.5, 2.5, elevation=3.0), point(1.5, 2.5, elevation=3.0), point(1.5, 2.5, elevation=4.0), point(0.5, 2.5, elevation=3.0), point(1.5, 2.5, elevation=3.0)],
    'fine': [point(1 / 3, -2 / 7, v=1 / 3, s='a' * 70), point(179.999999, -89.123456789, v=-123456.789012, s='')],
    'bends': [line([(0.0, 0.0), (0.5, 0.0001), (1.0, 0.0)], id='a', n=5), line([(3.0, 4.0), (3.0, 4.0)], id='b', n=0)],
    'long': [point(0.001 * i, 20.0 + (i * 37 % 101) / 64, elevation=float(i * 7919 % 1000)) for i in range(1500)],
    'fewer': [point(0.01 * i, 51.5 - 0.003 * i, elevation=1.5 * i) for i in range(3)],
    'two sites': [point(1.25, 2.5, id='a'), point(3.75, 4.5, id='Crystal Palace radio transmitter')],
    'swap': [point(5.0, 6.0, b=1.5, a=2.5), point(7.0, 8.0, a=4.5, b=3.5)],
}


def judge_shape(path, features, crs):
    import fiona
    with fiona.open(path) as src:
        got = [(f['geometry']['type'], f['geometry']['coordinates'], dict(f['properties'])) for f in src]
        code = src.crs.to_epsg() if src.crs else None
    if code != crs:
        return 'coordinate system %r, expected %r' % (code, crs)
    if len(got) != len(features):
        return '%d features, expected %d' % (len(got), len(features))
    for i, ((kind, coords, props), f) in enumerate(zip(got, features)):
        want = f['geometry']['coordinates']
        want = [want] if kind == 'Point' else want
        coords = [coords] if kind == 'Point' else coords
        if kind != f['geometry']['type'] or len(coords) != len(want) or any(
                abs(a - b) > 1e-9 for p, q in zip(coords, want) for a, b in zip(p[:2], q[:2])):
            return 'feature %d is %s %r, expected %r' % (i, kind, coords, f['geometry'])
        if set(props) != set(f['properties']):
            return 'feature %d has attributes %r' % (i, sorted(props))
        for k, v in f['properties'].items():
            g = props[k]
            if isinstance(v, str):
                ok = (g or '') == v
            else:
                ok = core.close(g, float(v), 1e-9, 1e-9)
            if not ok:
                return 'feature %d: attribute %s is %r, expected %r' % (i, k, g, v)
    return None


def shape_case(ops):
    try:
        with rasters.scratch() as top:
            os.makedirs(os.path.join(top, 'here'))
            furnish(os.path.join(top, 'here'))
            others = {os.path.join(top, 'here', n) for n in BYSTANDERS}
            expected = {}
            for module, shape, folder, name, crs in ops:
                features = SHAPES[shape]
                given = json.loads(json.dumps(features))
                for g, f in zip(given, features):
                    g['geometry']['coordinates'] = f['geometry']['coordinates']
                with scripts.quiet():
                    scripts.load(module).write_shapefile(given, os.path.join(top, folder), name, 'EPSG:%d' % crs)
                expected[os.path.join(top, folder, name)] = (features, crs)
                for path, (want, code) in expected.items():
                    m = judge_shape(path, want, code)
                    if m:
                        return '%s: %s' % (os.path.relpath(path, top), m)
                m = furniture(os.path.join(top, 'here'))
                if m:
                    return m
                stems = {os.path.splitext(p)[0] for p in expected}
                found = {os.path.join(d, n) for d, _, names in os.walk(top) for n in names} - others
                found = {os.path.splitext(p)[0] for p in found}
                if found != stems:
                    return 'files %r' % sorted(os.path.relpath(p, top) for p in found ^ stems)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def shapes(chunk, rec):
    for ops in chunk:
        case = dict(kind='shape', ops=[list(o) for o in ops])
        rec.current = case
        rec.states += 1
        rec.transitions += len(ops)
        m = shape_case(ops)
        rec.outcome(tuple(ops))
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


# ---------------------------------------------------------------------------- whole scripts

SITES = {'area': (-0.07491679518573545, 51.42413477117786), 'area_2tiles': (26.9976, -3.5409)}
ENDS = {'p2p': [(-0.07491679518573545, 51.42413477117786), (-0.8119433954872186, 51.94972494521946)],
        'p2p_2tiles': [(26.676, -3.513), (27.594, -3.514)]}
RESULT = {'area': 'area_results.csv', 'area_2tiles': 'area_results_2tiles.csv', 'p2p': 'p2p_results.csv', 'p2p_2tiles': 'p2p_results_2tiles.csv'}


def make_data(top, module, kind):
    """The data folder a script expects; returns the raster values and the grid"""
    data = os.path.join(top, 'data')
    os.makedirs(os.path.join(data, 'processed', 'shapes') if module == 'p2p_2tiles' else data, exist_ok=True)
    if module.endswith('2tiles'):
        west, north, step, rows, cols = 26.0, -3.0, 0.02, 60, 100
        values = c19.pattern(kind, rows, cols).astype('int16')
        rasters.write(os.path.join(data, 'a.tif'), values[:, :50], west, north, step, -9999)
        rasters.write(os.path.join(data, 'b.tif'), values[:, 50:], west + 50 * step, north, step, -9999)
        rasters.write_vrt(os.path.join(data, 'S_AVE_DSM.vrt'), [('a.tif', 0, 0, rows, 50), ('b.tif', 0, 50, rows, 50)], rows, cols, west, north, step, -9999)
    else:
        west, north, step, rows, cols = -1.0, 52.0, 0.02, 50, 60
        values = c19.pattern(kind, rows, cols).astype('int16')
        rasters.write(os.path.join(data, 'ASTGTM2_N51W001_dem.tif'), values, west, north, step, -9999)
    return values, (west, north, step)


def script_case(sequence):
    """sequence of (module, terrain): scripts run one after another in one scratch working directory"""
    with rasters.scratch() as top:
        done = {}
        for module, kind in sequence:
            values, grid = make_data(top, module, kind)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
                       PYTHONPATH=os.pathsep.join([os.path.join(core.REPO, 'src'), scripts.FOLDER]))
            r = subprocess.run([core.PYTHON, os.path.join(scripts.FOLDER, module + '.py')], cwd=top, env=env, timeout=120,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                return '%s ended with %d: %s' % (module, r.returncode, r.stderr.strip().splitlines()[-1:] or '')
            try:
                done[module] = expected_rows(module, kind, values, grid, top)
            except Exception as e:
                return 'raised %s: %s' % (type(e).__name__, e)
            for m, rows in done.items():
                message = judge_csv(os.path.join(top, 'results', RESULT[m]), rows)
                if message:
                    return 'after %s: %s: %s' % (module, RESULT[m], message)
            if module == 'p2p':
                for name, ends in (('transmitter', ENDS['p2p'][0]), ('receiver', ENDS['p2p'][1])):
                    message = judge_ends(os.path.join(top, 'data', 'processed', 'shapes', name + '.shp'), ends)
                    if message:
                        return '%s: %s' % (name, message)
                message = judge_points(os.path.join(top, 'data', 'processed', 'shapes', 'points.shp'), ENDS['p2p'], values, grid)
                if message:
                    return 'points: ' + message
            if module == 'p2p_2tiles':
                message = judge_points(os.path.join(top, 'data', 'processed', 'shapes', 'p2p_2tiles.shp'), ENDS['p2p_2tiles'], values, grid)
                if message:
                    return 'points: ' + message
        found = set(os.listdir(os.path.join(top, 'results')))
        if found != {RESULT[m] for m in done}:
            return 'the results folder holds %r' % sorted(found)
    return None


def expected_rows(module, kind, values, grid, top):
    """The table the runner's own function returns for the sampled terrain"""
    runner = scripts.load(module)
    with scripts.quiet():
        if module.startswith('area'):
            lon, lat = SITES[module]
            dem = os.path.join(top, 'data', 'S_AVE_DSM.vrt' if module.endswith('2tiles') else 'ASTGTM2_N51W001_dem.tif')
            tip = scripts.load('terrain_module').terrain_area(dem, lon, lat, 20000)
            return runner.itmlogic_area({'hg': [3.3, 1.3], 'fmhz': 20, 'dh': tip, 'ipol': 0})
        p = {'fmhz': 41.5, 'd': 77.8, 'hg': [143.9, 8.5], 'ipol': 0}
        return runner.itmlogic_p2p(p, list(c18.profiles.CRYSTAL_PALACE))


def judge_ends(path, at):
    import fiona
    with fiona.open(path) as src:
        f = list(src)
    if len(f) != 1 or any(abs(a - b) > 1e-9 for a, b in zip(f[0]['geometry']['coordinates'], at)):
        return '%d features, expected one at %r' % (len(f), at)
    return None


def judge_points(path, ends, values, grid):
    import fiona
    with fiona.open(path) as src:
        f = list(src)
    n = len(f)
    if not 2 <= n <= 600:
        return '%d points' % n
    for i, p in enumerate(f):
        x, y = p['geometry']['coordinates'][:2]
        wx, wy = (ends[0][k] + (ends[1][k] - ends[0][k]) * i / (n - 1) for k in (0, 1))
        if abs(x - wx) > 1e-9 or abs(y - wy) > 1e-9:
            return 'point %d is at %r, %r, expected %r, %r' % (i, x, y, wx, wy)
        e = rasters.bilinear(values, *grid, x, y)
        if not core.close(p['properties']['elevation'], e, 1e-5):
            return 'point %d has elevation %r, the raster %r' % (i, p['properties']['elevation'], e)
    return None


def runs(chunk, rec):
    for seq in chunk:
        case = dict(kind='script', sequence=[list(s) for s in seq])
        rec.current = case
        rec.states += 1
        rec.transitions += len(seq)
        m = script_case(seq)
        rec.outcome(tuple(seq))
        if m:
            rec.violation(case, m)
        else:
            rec.traces += 1
            rec.sample(case)


def spaces(grade):
    quick = grade == 'small'
    single = [(m, t, f, 'out.csv') for m in WRITERS for t in TABLES for f in FOLDERS]
    csv_ops = [[o] for o in single]
    small = [(m, t, f, n) for m in ('area', 'p2p') for t in ('one', 'one again', 'two', 'text') for f in ('here', 'new') for n in ('out.csv', 'out2.csv')]
    csv_ops += [list(p) for p in itertools.product(small, repeat=2)]
    again = [(m, t, 'here', 'out.csv') for m in WRITERS for t in ('one', 'one again', 'two', 'two again', 'longer', 'long', 'same')]
    csv_ops += [[a, b] for a in again for b in again if a[0] == b[0]]
    few = [('area', t, f, 'out.csv') for t in ('one', 'many', 'same') for f in ('here', os.path.join('a', 'b', 'c'))]
    csv_ops += [list(p) for p in itertools.product(few, repeat=3)]
    mods = ('p2p', 'p2p_2tiles')
    shp = [(m, s, f, 'out.shp', 4326) for m in mods for s in SHAPES for f in FOLDERS]
    shape_ops = [[o] for o in shp] + [[(m, 'points', 'here', 'out.shp', c)] for m in mods for c in (4326, 3857, 27700)]
    pair = [('p2p', s, f, n, 4326) for s in ('site', 'two sites', 'points', 'fewer', 'mixed') for f in ('here', 'new') for n in ('out.shp', 'b.shp')]
    shape_ops += [list(p) for p in itertools.product(pair, repeat=2)]
    kinds = ('rough', 'hill') if quick else ('rough', 'hill', 'plane', 'below', 'flat', 'step')
    seqs = [[(m, k)] for m in WRITERS for k in kinds]
    seqs += [[('area', 'rough'), ('p2p', 'rough'), ('area', 'hill')], [('p2p_2tiles', 'hill'), ('area_2tiles', 'hill'), ('p2p_2tiles', 'rough')]]
    if not quick:
        seqs += [[(a, 'rough'), (b, 'hill'), (a, 'plane')] for a in WRITERS for b in WRITERS]
        csv_ops += [list(p) for p in itertools.product(few, repeat=4)]
    return [
        core.Space('scripts', [[s] for s in seqs], runs, 'each script over synthetic rasters, and sequences of scripts in one folder'),
        core.Space('tables', core.chunked(csv_ops, 32), writes, 'all sequences of up to 3 writes over tables, folders and names'),
        core.Space('shapefiles', core.chunked(shape_ops, 32), shapes, 'all sequences of up to 2 writes over feature sets, folders and names'),
    ]


def replay(case):
    if case['kind'] == 'csv':
        return write_case([tuple(o) for o in case['ops']])
    if case['kind'] == 'shape':
        return shape_case([tuple(o) for o in case['ops']])
    return script_case([tuple(s) for s in case['sequence']])
