"""C19: sampled paths and area statistics on synthetic rasters, judged with independent geometry."""
import itertools
import math
import os

import numpy as np

import core
import rasters
import scripts

PID = 'C19'
QUICK_GRADE = 'small'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'elevation between cell centres is the bilinear one; paths lie over cells with data',
    'the area boundary is drawn to within 0.25 % of the radius: placements with a cell centre in that ring are not judged',
    'rasters, sites, radii, paths and no-data placements from the stated complete sets, in scratch folders',
]


def terrain():
    return scripts.load('terrain_module')


# ---------------------------------------------------------------------------- grids

def pattern(kind, rows, cols):
    r, c = np.mgrid[0:rows, 0:cols]
    if kind == 'plane':
        return 100 + 7 * c + 3 * r
    if kind == 'rough':
        return (r * 7919 + c * 104729 + r * c * 13) % 353
    if kind == 'step':
        return np.where(c < cols // 2, 10, 400)
    if kind == 'below':
        return -((r * 31 + c * 17) % 90) - 5
    if kind == 'shore':
        return np.maximum(0, (r * 31 + c * 57) % 120 - 60) - 3 * ((r + c) % 5 == 0)
    if kind == 'peaks':
        return (r * 7919 + c * 104729 + r * c * 13) % 9270 - 420
    if kind == 'flat':
        return np.full((rows, cols), 42)
    if kind == 'hill':
        return (500 * np.exp(-((r - rows / 2) ** 2 + (c - cols / 2) ** 2) / (0.08 * rows * cols))).astype(int)
    raise ValueError(kind)


# ---------------------------------------------------------------------------- number of samples

def counts(chunk, rec):
    distances = chunk
    last = None
    for d in distances:
        rec.states += 1
        rec.transitions += 1
        m = count_case(d, last)
        if m:
            rec.violation(dict(kind='count', d=d, before=last), m)
            if rec.full:
                return
        last = d
    rec.outcome(d)
    rec.traces += 1
    rec.sample(dict(kind='count', d=d))


def count_case(d, before):
    try:
        n = terrain().determine_num_samples(d)
        if n != int(n) or not 2 <= n <= 600:
            return '%r samples for %r m' % (n, d)
        range(n)
        if before is not None and terrain().determine_num_samples(before) > n:
            return '%r samples for %r m but %r for the shorter %r m' % (n, d, terrain().determine_num_samples(before), before)
        if d == 0 and n != 2:
            return '%r samples for a path of no length' % n
        if d >= 1e3 and terrain().determine_num_samples(d / 20) >= n and n < 590:
            return 'no more samples for %r m than for a twentieth of it' % d
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


# ---------------------------------------------------------------------------- paths

def path_case(setup, path):
    """setup: (kind, rows, cols, west, north, step, dtype, vrt)"""
    with rasters.scratch() as folder:
        values, dem = build(setup, folder)
        return judge_path(setup, values, dem, path)


def build(setup, folder):
    kind, rows, cols, west, north, step, dtype, vrt = setup
    values = pattern(kind, rows, cols).astype(dtype)
    if not vrt:
        return values, rasters.write(os.path.join(folder, 'dem.tif'), values, west, north, step, -9999, dtype)
    half = cols // 2
    rasters.write(os.path.join(folder, 'a.tif'), values[:, :half], west, north, step, -9999, dtype)
    rasters.write(os.path.join(folder, 'b.tif'), values[:, half:], west + half * step, north, step, -9999, dtype)
    return values, rasters.write_vrt(os.path.join(folder, 'dem.vrt'), [('a.tif', 0, 0, rows, half), ('b.tif', 0, half, rows, cols - half)],
                                     rows, cols, west, north, step, -9999, 'Int16' if dtype == 'int16' else 'Float32')


def judge_path(setup, values, dem, path):
    kind, rows, cols, west, north, step, dtype, vrt = setup
    line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [tuple(p) for p in path]}, 'properties': {'id': 'terrain path'}}
    try:
        with scripts.quiet():
            profile, km, points = terrain().terrain_p2p(dem, line)
        n = len(profile)
        if not 2 <= n <= 600 or len(points) != n:
            return '%d elevations and %d points' % (n, len(points))
        length = sum(rasters.geodesic(*a, *b) for a, b in zip(path, path[1:]))
        if not core.close(km, length / 1000, 1e-6, 1e-8):
            return 'length %r km, the geodesic is %r km' % (km, length / 1000)
        legs = [math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(path, path[1:])]
        for i, (z, p) in enumerate(zip(profile, points)):
            at = sum(legs) * i / (n - 1)
            a, b = path[0], path[1]
            for j, leg in enumerate(legs):
                a, b = path[j], path[j + 1]
                if at <= leg or j == len(legs) - 1:
                    break
                at -= leg
            f = at / leg if leg else 0.0
            x, y = a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f
            gx, gy = p['geometry']['coordinates'][:2]
            if abs(gx - x) > 1e-9 or abs(gy - y) > 1e-9:
                return 'point %d of %d is at %r, %r; equal spacing from end to end puts it at %r, %r' % (i, n, gx, gy, x, y)
            e = rasters.bilinear(values, west, north, step, gx, gy)
            if not core.close(z, e, 1e-6, 1e-6 if dtype == 'float32' else 1e-7) or not core.close(p['properties']['elevation'], float(z), 1e-9):
                return 'elevation %r (profile) and %r (point) at point %d, the raster has %r' % (z, p['properties']['elevation'], i, e)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def paths(chunk, rec):
    setup, many = chunk
    with rasters.scratch() as folder:
        values, dem = build(setup, folder)
        for path in many:
            case = dict(kind='path', setup=list(setup), path=[list(p) for p in path])
            rec.current = case
            rec.states += 1
            rec.transitions += 1
            m = judge_path(setup, values, dem, path)
            rec.outcome(setup, tuple(map(tuple, path)))
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.sample(case)


# ---------------------------------------------------------------------------- areas

NODATA = [('int16', -9999, -9999), ('int16', None, -9999), ('int16', -32768, -32768), ('float32', -9999.0, -9999.0), ('float32', float('nan'), float('nan')),
          ('int16', 32767, 32767), ('int16', 0, 0)]


def area_case(grid, site, radius, holes, outliers, coding):
    with rasters.scratch() as folder:
        return judge_area(grid, site, radius, holes, outliers, coding, folder, core.Recorder())


def judge_area(grid, site, radius, holes, outliers, coding, folder, rec):
    """None or a message; rec.undefined counts placements that are not judged"""
    kind, rows, cols, step = grid[:4]
    lon, lat, dx, dy = site
    dtype, declared, hole = coding
    west, north = lon - step * (cols / 2 + dx), lat + step * (rows / 2 + dy)
    values = pattern(kind, rows, cols).astype(dtype)
    if hole == 0:
        values[values == 0] = 1
    inside, ring = [], False
    for r in range(rows):
        for c in range(cols):
            d = rasters.geodesic(lon, lat, west + (c + 0.5) * step, north - (r + 0.5) * step)
            if 0.9975 * radius < d < 1.0005 * radius:
                ring = True
            if d <= radius:
                inside.append((r, c))
    if ring:
        rec.undefined += 1
        return None
    for (r, c), v in outliers:
        values[r, c] = v
    for r, c in holes:
        values[r, c] = hole
    holes = set(map(tuple, holes))
    left = [float(values[p]) for p in inside if p not in holes]
    if not left:
        rec.undefined += 1
        return None
    rec.states += 1
    rec.transitions += 1
    try:
        dem = rasters.write(os.path.join(folder, 'dem.tif'), values, west, north, step, declared, dtype)
        with scripts.quiet():
            got = terrain().terrain_area(dem, lon, lat, radius)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    want = rasters.interdecile(left)
    rec.outcome(grid, site, radius, got)
    if core.num(got) is None or int(got) != got or int(got) not in want:
        return 'irregularity %r, the %d valid cells within %r m give %r' % (got, len(left), radius, sorted(want))
    return None


def run_area(args, folder, rec):
    grid, site, radius, holes, outliers, coding = args
    case = dict(kind='area', grid=list(grid), site=list(site), radius=radius, holes=[list(h) for h in holes],
                outliers=[[list(p), v] for p, v in outliers], coding=[coding[0], repr(coding[1]), repr(coding[2])])
    rec.current = case
    before = rec.undefined
    m = judge_area(grid, site, radius, holes, outliers, coding, folder, rec)
    if m:
        rec.violation(case, m)
    elif rec.undefined == before:
        rec.traces += 1
        rec.sample(case)


def areas(chunk, rec):
    with rasters.scratch() as folder:
        for args in chunk:
            run_area(args, folder, rec)
            if rec.full:
                return


def range_case(values, mask):
    try:
        got = terrain().interdecile_range(np.ma.MaskedArray(np.array(values, dtype=float), mask=list(mask)))
        kept = [v for v, m in zip(values, mask) if not m]
        if int(got) != got or int(got) not in rasters.interdecile(kept):
            return 'interdecile range of %r is %r' % (kept, got)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def ranges(chunk, rec):
    n, first = chunk
    for rest in itertools.product((-40, 0, 11, 250), repeat=n - 1):
        v = (first,) + rest
        for mask in itertools.product((False, True), repeat=n):
            if all(mask):
                continue
            rec.states += 1
            rec.transitions += 1
            m = range_case(v, mask)
            if m:
                rec.violation(dict(kind='range', values=list(v), mask=list(mask)), m)
                if rec.full:
                    return
        rec.outcome(v)
    rec.traces += 1
    rec.sample(dict(kind='range', values=list(v)))


# ---------------------------------------------------------------------------- the line between two terminals

def line_case(module, a, b):
    def feature(c, name):
        return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': c}, 'properties': {'id': name}}
    one, two = feature(tuple(a), 'one'), feature(list(b), 'two')
    try:
        line = scripts.load(module).straight_line_from_points(one, two)
        coords = [tuple(c) for c in line['geometry']['coordinates']]
        kind = line['geometry']['type']
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    if kind != 'LineString' or coords != [tuple(a), tuple(b)]:
        return 'the path from %r to %r is %s %r' % (a, b, kind, coords)
    if one != feature(tuple(a), 'one') or two != feature(list(b), 'two'):
        return 'the terminals were changed'
    return None


def terminal_lines(chunk, rec):
    module, many = chunk
    for a, b in many:
        rec.states += 1
        rec.transitions += 1
        m = line_case(module, a, b)
        if m:
            rec.violation(dict(kind='line', module=module, a=a, b=b), m)
            if rec.full:
                return
        rec.outcome(a, b)
    rec.traces += 1


LONS = [-180.0, -77.03652981, -0.07491679518573545, 0, 0.0, 1e-7, 26.9976, 151.2093, 179.99999999]
LATS = [-89.5, -33.8688197, 0.0, 0, 51.42413477117786, 51.94972494521946, 78.2]


def spaces(grade):
    quick = grade == 'small'
    d = [0, 0.0, 0.5] + [10 ** (i / 60) for i in range(0, 540)]
    d += [float(i) for i in range(1, 60000, 7 if quick else 1)]
    d = sorted(set(d))

    sites = [(26.9976, -3.5409), (-0.0749, 51.4241), (151.2, -33.9), (24.1, 69.5)]
    ks = [('rough', 'int16', False), ('plane', 'float32', False), ('below', 'int16', True)]
    path_chunks = []
    more = [(-68.3, -54.8), (15.6, 78.2), (-179.2, 8.1), (100.5, -77.0)]
    for (lon, lat), (kind, dtype, vrt) in [(s, k) for s in sites[:2] for k in ks] + (
            [(s, k) for s in sites[2:] + more for k in ks] if not quick else [(s, ks[i % 3]) for i, s in enumerate(sites[2:] + more)]):
        for step in (0.005, 0.05) + ((0.3,) if not quick and abs(lat) < 75 else ()):
            rows, cols = 30, 40
            west, north = lon - step * 20, lat + step * 15
            setup = (kind, rows, cols, west, north, step, dtype, vrt)
            a = (lon + 0.31 * step, lat - 0.17 * step)
            many = [[a, a]]
            for t in range(7 if quick else 36):
                ang = 0.3 + 2 * math.pi * t / (7 if quick else 36)
                reach = (0.002, 0.3, 3.0, 13.0)[t % 4]
                many.append([a, (a[0] + step * reach * math.cos(ang), a[1] + step * reach * math.sin(ang))])
            many.append([(west + 3 * step, lat), a, (lon, north - 2.5 * step)])
            bend = 0.0006 if step < 0.04 else 0.0009
            many.append([a, (a[0] + 4 * step, a[1] + bend), (a[0] + 8 * step, a[1] - 0.5 * bend), (a[0] + 8 * step, a[1] - 3 * step)])
            many.append([(lon - 5 * step, lat), (lon + 5 * step, lat), (lon - 4 * step, lat + 0.0004)])
            many.append([(west + 0.7 * step, north - 0.8 * step), (west + 39.2 * step, north - 29.1 * step)])
            path_chunks += [(setup, c) for c in core.chunked(many, 2)]

    # areas: geometry
    radii = [700.0, 1500, 3000.0, 5200, 9000.0, 20000]
    offs = [(0, 0), (0.25, -0.4), (3.3, 0.0), (-3.1, 3.7)]
    geo = [((kind, 13, 13, 0.01), site + off, radius, (), (), NODATA[0])
           for kind in ('plane', 'rough', 'step', 'below', 'flat', 'hill', 'peaks') for site in sites for off in offs for radius in radii]
    if not quick:
        geo += [((kind, 25, 21, 0.004), site + off, radius, (), (), coding) for kind in ('rough', 'below') for site in sites
                for off in offs + [(10.0, 9.0), (-6.0, 0.1)] for radius in [350.0 * 1.2 ** i for i in range(18)] for coding in NODATA]
    geo += [((kind, 29, 31, 0.004), site + off, radius, (), (), coding) for kind in ('rough', 'below', 'shore') for site in sites[:2]
            for off in offs[:2] for radius in (4100.0, 5900.0, 7700.0, 9000.0) for coding in (NODATA[0], NODATA[3])]
    # near each other, one after the other
    geo += [((kind, 13, 13, 0.01), (lon + m * dlon, lat + m * dlat) + offs[1], radius, (), (), NODATA[0])
            for kind in ('rough', 'hill') for lon, lat in [x[:2] for x in sites] for radius in (1500, 5200) for dlon, dlat in ((0.004, 0.0), (0.0, 0.013), (-0.021, 0.02)) for m in (0, 1, 0)]
    # areas: every single cell replaced or emptied, and pairs
    cell = []
    site = (26.9976, -3.5409, 0.1, -0.2)
    for coding in NODATA if not quick else NODATA[:4]:
        for r, c in itertools.product(range(9), repeat=2):
            cell.append((('rough', 9, 9, 0.01), site, 3300.0, ((r, c),), (), coding))
            cell.append((('rough', 9, 9, 0.01), site, 3300.0, (), (((r, c), 8848),), coding))
    for a, b in itertools.combinations(itertools.product(range(5), repeat=2), 2):
        cell.append((('rough', 5, 5, 0.01), site, 2600.0, (a, b), (), NODATA[0]))
        cell.append((('hill', 5, 5, 0.01), site, 2600.0, (a,), ((b, -400),), NODATA[2]))
    # areas reaching over the edge of the raster
    edge = [(('rough', 9, 9, 0.01), (lon, lat, dx, dy), radius, (), (), coding) for lon, lat in sites[:2]
            for dx, dy in ((4.0, 0.0), (-4.0, 0.2), (0.1, 4.1), (0.0, -4.0), (4.0, 4.0), (-3.9, -4.1)) for radius in (1700.0, 3100.0, 6000.0) for coding in NODATA]
    sites2 = list(itertools.product(LONS, LATS))
    both = list(itertools.product(sites2, repeat=2))
    return [
        core.Space('lines between terminals', [(m, c) for m in ('p2p', 'p2p_2tiles') for c in core.chunked(both, 4)], terminal_lines,
                   'every ordered pair of %d terminals all over the globe, both point-to-point runners' % len(sites2)),
        core.Space('number of samples', core.chunked(d, 8), counts, 'path lengths 0..1e9 m, logarithmic and every %d m to 60 km' % (7 if quick else 1)),
        core.Space('sampled paths', path_chunks, paths, 'paths in all directions, from no length to 200 km, over single rasters and a two-tile mosaic'),
        core.Space('areas', core.chunked(geo, 48), areas, 'terrain patterns x sites x placements x radii'),
        core.Space('outliers and cells without data', core.chunked(cell, 48), areas, 'every cell in turn made an outlier or emptied, every pair on a 5x5 raster, in several no-data codings'),
        core.Space('areas over the edge', core.chunked(edge, 16), areas, 'areas reaching beyond the raster on every side, in every no-data coding'),
        core.Space('interdecile range', [(n, f) for n in range(1, 5 if quick else 7) for f in (-40, 0, 11, 250)], ranges, 'all short arrays with all masks'),
    ]


def replay(case):
    k = case['kind']
    if k == 'count':
        return count_case(case['d'], case['before'])
    if k == 'path':
        return path_case(tuple(case['setup']), [tuple(p) for p in case['path']])
    if k == 'line':
        return line_case(case['module'], tuple(case['a']), tuple(case['b']))
    if k == 'range':
        return range_case(case['values'], case['mask'])
    def number(t):
        return None if t == 'None' else float(t) if ('.' in t or 'n' in t) else int(t)
    dtype, declared, hole = case['coding']
    return area_case(tuple(case['grid']), tuple(case['site']), case['radius'], [tuple(h) for h in case['holes']],
                     [(tuple(p), v) for p, v in case['outliers']], (dtype, number(declared), number(hole)))
