"""
C23: what the point-to-point runners and scripts print.

The report is read as a user reads it: by its words and numbers, in any order and layout.
"""
import contextlib
import io
import itertools
import os
import re
import subprocess

import core
import itmref as ref
import links
import profiles
import rasters
import scripts
from props import c18, c21

PID = 'C23'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the regions are those of the algorithm: line of sight short of the smooth-earth horizon distance, diffraction from there to '
    'the scatter distance, scatter beyond; a path within half a profile step of the horizon distance counts as single-horizon',
    'a report is compared by its words and numbers, not its layout; within rounding of a border either side is accepted',
]
CLASSES = {'line of sight': r'line[- ]of[- ]sight path', 'single': r'single[- ]horizon path', 'double': r'double[- ]horizon path'}
MODES = {'diffraction': r'diffraction is the dominant', 'scatter': r'scatter is the dominant'}


def report(module, given, z):
    out = io.StringIO()
    runner = scripts.load(module)
    with contextlib.redirect_stdout(out):
        runner.itmlogic_p2p(given, list(z))
    return out.getvalue()


def read(text):
    low = text.lower()
    classes = [n for n, r in CLASSES.items() for _ in re.findall(r, low)]
    modes = [n for n, r in MODES.items() for _ in re.findall(r, low)]
    fs = [float(v) for v in re.findall(r'free space value\D*?([-+0-9.e]+)', low)]
    levels = re.findall(r'confidence levels([^\n]*)', low)
    return classes, modes, fs, [[float(v) for v in re.findall(r'[0-9.]+', l)] for l in levels]


def facts(d, att, xi):
    """Path length past the horizon, its border, and past the scatter distance"""
    return [d - att.dlsa, d - att.scat().dx, ref.free_space(att.k.wn, d)]


def outcomes(bounds, xi):
    """All (class, mode) a report may give: one, but for paths within rounding of a border"""
    (q0, q1), (x0, x1), _ = bounds
    eps = 1e-6 * xi + 1e-3
    classes, modes = set(), set()
    if q0 < -0.5 * xi + eps:
        classes.add('line of sight')
    if q1 > -0.5 * xi - eps and q0 < 0.5 * xi + eps:
        classes.add('single')
    if q1 > 0.5 * xi - eps:
        classes.add('double')
    if q0 < eps:
        modes.add(None)
    if q1 > -eps:
        if x0 < eps:
            modes.add('diffraction')
        if x1 > -eps:
            modes.add('scatter')
    return classes, modes


def judge(text, p, z, rec):
    link = c18.p2p_link(p, z)
    xi = link.xi
    d, att = links.reference(link)
    att.los()
    want = facts(d, att, xi)
    classes, modes = outcomes([(v, v) for v in want], xi)
    got_class, got_mode, fs, levels = read(text)
    rec.outcome(module_free(got_class), module_free(got_mode))
    if len(got_class) != 1:
        return 'the report names %d kinds of path: %r' % (len(got_class), got_class)
    if len(got_mode) > 1:
        return 'the report names %d dominant modes: %r' % (len(got_mode), got_mode)
    mode = got_mode[0] if got_mode else None
    if got_class[0] not in classes or mode not in modes:
        bounds = links.allowed(link, lambda a, b: facts(a, b, xi))
        if bounds is not None:
            c2, m2 = outcomes(bounds, xi)
            if got_class[0] not in c2:
                return 'a path %.6g m past the horizon distance is reported as %r, it is %s' % (want[0], got_class[0], sorted(classes))
            if mode not in m2:
                return 'dominant mode %r reported %.6g m past the horizon distance and %.6g m past the scatter distance, it is %s' % (
                    mode, want[0], want[1], sorted(map(str, modes)))
        rec.ties += 1
    if len(fs) != 1 or not core.close(fs[0], want[2], 2e-6):
        return 'free space value %r, expected %r' % (fs, want[2])
    if len(levels) != 1 or sorted(levels[0]) != sorted(map(float, c18.CONFIDENCE)):
        return 'confidence levels %r, expected %r' % (levels, c18.CONFIDENCE)
    return None


def module_free(values):
    return '/'.join(values)


def one(module, p, z, given, rec):
    rec.transitions += 1
    return judge(report(module, given, z), p, z, rec)


def guarded(f, case, rec):
    rec.states += 1
    c18.guarded(f, case, rec)


def paths(chunk, rec):
    module, points = chunk
    for p, z in points:
        guarded(lambda: one(module, p, z, c18.p2p_inputs(p), rec), dict(kind='path', module=module, p=list(p), z=list(z)), rec)
        if rec.full:
            return


# ------------------------------------------------------------------- sequences of runs

RUNS = [((300.0, 40.0, 30.0, 5.0, 1), (40.0, 10.0, 35.0, 20.0)), ((41.5, 143.9, 8.5, 77.8, 0), tuple(profiles.CRYSTAL_PALACE)),
        ((900.0, 10.0, 3.0, 420.0, 0), (0.0, 120.0, 0.0, 60.0, 0.0)), ((2400.0, 3.0, 3.0, 15.0, 1), (0.0,) * 4)]
OPS = [(i, w) for i in range(len(RUNS)) for w in ('new', 'same')]


def history(module, seq, rec):
    shared = {}
    for n, (i, which) in enumerate(seq):
        p, z = RUNS[i]
        given = c18.p2p_inputs(p)
        if which == 'same':
            shared.update(given)
            given = shared
        m = one(module, p, z, given, rec)
        if m:
            return 'run %d: %s' % (n + 1, m)
    return None


def histories(chunk, rec):
    module, first, depth = chunk
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = [first] + list(rest)
        guarded(lambda: history(module, seq, rec), dict(kind='history', module=module, seq=[list(s) for s in seq]), rec)
        if rec.full:
            return


# ------------------------------------------------------------------- whole scripts

def script(module, terrain, rec):
    with rasters.scratch() as top:
        values, grid = c21.make_data(top, module, terrain)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
                   PYTHONPATH=os.pathsep.join([os.path.join(core.REPO, 'src'), scripts.FOLDER]))
        r = subprocess.run([core.PYTHON, os.path.join(scripts.FOLDER, module + '.py')], cwd=top, env=env, timeout=120,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        rec.transitions += 1
        if r.returncode:
            return '%s ended with %d' % (module, r.returncode)
        low = r.stdout.lower()
        if module.startswith('area'):
            lon, lat = c21.SITES[module]
            dem = os.path.join(top, 'data', 'S_AVE_DSM.vrt' if module.endswith('2tiles') else 'ASTGTM2_N51W001_dem.tif')
            tip = scripts.load('terrain_module').terrain_area(dem, lon, lat, 20000)
            found = [float(v) for v in re.findall(r'tip for ast dem\s+([-+0-9.e]+)', low)]
            if found != [float(tip)]:
                return 'terrain irregularity %r printed, the terrain has %r' % (found, tip)
            return None
        import pyproj
        (x1, y1), (x2, y2) = c21.ENDS[module]
        km = pyproj.Geod(ellps='WGS84').inv(x1, y1, x2, y2)[2] / 1000
        found = [float(v) for v in re.findall(r'distance is\s+([-+0-9.e]+)\s*km', low)]
        if len(found) != 1 or not core.close(found[0], km, 1e-6):
            return 'distance %r km printed, the path has %r km' % (found, km)
        import fiona
        name = 'p2p_2tiles.shp' if module.endswith('2tiles') else 'points.shp'
        with fiona.open(os.path.join(top, 'data', 'processed', 'shapes', name)) as src:
            n = len(src)
        found = re.findall(r'sampled\s+(\d+)\s+points' if module.endswith('2tiles') else r'len\(measured_terrain_profile\)\s+(\d+)', low)
        if [int(v) for v in found] != [n]:
            return '%r samples printed, there are %d' % (found, n)
        return judge(r.stdout, (41.5, 143.9, 8.5, 77.8, 0), tuple(map(float, profiles.CRYSTAL_PALACE)), rec)


def scripts_run(chunk, rec):
    for module, terrain in chunk:
        guarded(lambda: script(module, terrain, rec), dict(kind='script', module=module, terrain=terrain), rec)
        if rec.full:
            return


# ------------------------------------------------------------------- spaces

def borders(grade):
    """Paths over level and gently rolling ground at every length around their horizon and scatter distances"""
    n = {'small': 4, 'medium': 8, 'large': 16, 'huge': 64}[grade]
    for f, h1, h2 in ((41.5, 143.9, 8.5), (300.0, 10.0, 3.0), (2400.0, 30.0, 60.0), (900.0, 2.0, 500.0)):
        for size in (1, 4, 25):
            for z in ((20.0,) * (size + 1), tuple(30.0 + 12.0 * (i % 3) for i in range(size + 1))):
                for what in (0, 1):
                    lo, hi = 1.0, 2000.0
                    for _ in range(60):
                        km = 0.5 * (lo + hi)
                        try:
                            d, att = links.reference(c18.p2p_link((f, h1, h2, km, 0), z))
                            over = facts(d, att, 1.0)[what] > 0
                        except ref.Undefined:
                            over = False
                        lo, hi = (lo, km) if over else (km, hi)
                    xi = hi / size
                    for i in range(-n, n + 1):
                        for scale in (0.5 * xi / n * 1.5, 1e-3, 1e-6):
                            km = hi + i * scale
                            if km > 0.5:
                                yield (f, h1, h2, km, 0), z


def spaces(grade):
    quick = grade == 'small'
    pp = [(41.5, 143.9, 8.5, 77.8, 0), (573.3, 143.9, 8.5, 77.8, 1), (300, 10, 3.0, 4.0, 1), (2400.0, 2.0, 45.0, 33.3, 0),
          (100.0, 30.0, 30.0, 240.0, 1), (150.25, 12.345, 7.0625, 18.23457, 0), (1800.0, 20, 5, 900.0, 1)]
    every = [(p, z) for p in pp for n in ((1, 2, 3) if quick else (1, 2, 3, 4, 5)) for z in profiles.all_small(n, (0.0, 40.0, 130))]
    every += [(p, z) for p in pp for n in ((10, 60) if quick else (10, 33, 60, 157, 300, 599)) for _, z in profiles.shaped(n)]
    steps = {'small': 40, 'medium': 120, 'large': 400, 'huge': 2000}[grade]
    every += [((f, h1, h2, 0.7 * 2000.0 ** (i / steps), 1), z) for i in range(steps) for f, h1, h2 in ((41.5, 143.9, 8.5), (900.0, 10.0, 3.0))
              for z in (tuple(map(float, profiles.CRYSTAL_PALACE)), (0.0, 30.0, 10.0, 50.0, 0.0))]
    both = ('p2p', 'p2p_2tiles')
    near = list(borders(grade))
    depth = {'small': 2, 'medium': 3, 'large': 4, 'huge': 5}[grade]
    kinds = ('rough', 'hill') if quick else ('rough', 'hill', 'plane', 'below', 'flat', 'step')
    return [
        core.Space('whole scripts', [[(m, k)] for m in both + ('area', 'area_2tiles') for k in kinds], scripts_run, 'each script over synthetic rasters'),
        core.Space('paths', [(m, c) for m in both for c in core.chunked(every, 32)], paths,
                   'small, structured and documented profiles x parameters, and %d lengths; both runners' % steps),
        core.Space('borders', [(m, c) for m in both for c in core.chunked(near, 32)], paths,
                   'lengths around the horizon distance, half a step from it, and around the scatter distance'),
        core.Space('run histories', [(m, o, depth) for m in both for o in OPS], histories,
                   'all sequences of %d runs over 4 paths of all kinds x {new, reused dictionary}' % depth),
    ]


def replay(case):
    rec = core.Recorder()
    try:
        if case['kind'] == 'path':
            return one(case['module'], tuple(case['p']), tuple(case['z']), c18.p2p_inputs(case['p']), rec)
        if case['kind'] == 'script':
            return script(case['module'], case['terrain'], rec)
        return history(case['module'], [tuple(s) for s in case['seq']], rec)
    except ref.Undefined:
        return None
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
