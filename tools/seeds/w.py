import sys, json
def seed(sid, property, needs, breaks, edits, demo):
    with open(sid + '.seed', 'w') as f:
        f.write('property = %r\nneeds = %r\nbreaks = %r\nedits = %s\ndemo = """\n%s"""\n' % (
            property, needs, breaks, '[' + ',\n  '.join(repr(e) for e in edits) + ']', demo.lstrip('\n')))
P='src/itmlogic/'
seed('dist0-keeps-last', 'C01', 'distance 0 asked after a positive distance in the same area session',
 'the special distance 0 leaves the earlier distance in place, so its attenuation depends on history',
 [(P+'lrprop.py', "        prop['dist'] = d\n", "        prop['dist'] = d if d > 0 else prop.get('dist', 0)\n")],
 '''
p = at(50e3, area())
p = at(0, p)
fresh = at(0, area())
expect(near(p['aref'], fresh['aref']), 'distance 0 after 50 km: %r, fresh: %r' % (p['aref'], fresh['aref']))
''')
seed('los-anchor', 'C02', 'high antennas over irregular terrain at a frequency where the two-ray distance exceeds half the terrain horizon but not half the smooth one',
 'the first anchor of the line-of-sight fit is capped by the smooth-earth horizon',
 [(P+'lrprop.py', "                d0 = min(d0, 0.5 * prop['dla'])\n", "                d0 = min(d0, 0.5 * prop['dlsa'])\n")],
 '''
WANT = [((300., (100., 100.), 500.), 2.6296201400319), ((300., (300., 30.), 500.), 0.7767405398300733)]
for (f, hg, dh), want in WANT:
    p = at(15e3, area(f=f, hg=hg, dh=dh))
    expect(near(p['aref'], want, 1e-5), '%r: %r, ITM gives %r' % ((f, hg, dh), p['aref'], want))
''')
seed('dx-before-dlsa', 'C03', 'a link whose scatter region would start before the smooth-earth horizon',
 'the scatter distance can precede the line-of-sight distance, giving a step in the curve',
 [(P+'lrprop.py', "                    max([prop['dlsa'], prop['dla'] + 0.3", "                    max([prop['dla'], prop['dla'] + 0.3")],
 '''
for f in (40., 100., 300., 1000., 10000.):
    for hg in ((100., 100.), (1000., 1000.), (3000., 3000.), (3000., 3.)):
        for dh in (0., 90., 500., 1000., 2000.):
            for n0 in (250., 301., 400.):
                p = at(0, area(f=f, hg=hg, dh=dh, n0=n0))
                expect(p['dx'] >= p['dlsa'], 'dx %r < dlsa %r' % (p['dx'], p['dlsa']))
''')
seed('h0s-survives', 'C04', 'a new area link in a session whose earlier link reached the scatter region, with a large frequency gain',
 'the remembered scatter frequency gain of an earlier link is reused for the next link',
 [(P+'lrprop.py', "            prop['h0s'] = -15\n", "            prop.setdefault('h0s', -15)\n")],
 '''
links = [dict(f=f, hg=hg, dh=dh) for f in (20., 40., 3000.) for hg in ((1., 1.), (3., 3.), (1000., 1000.)) for dh in (0., 90.)]
for a in links:
    for b in links:
        p = at(900e3, area(**a))
        p = at(900e3, area(p, **b))
        q = at(900e3, area(**b))
        expect(near(p['aref'], q['aref']), '%r after %r: %r, alone %r' % (b, a, p['aref'], q['aref']))
''')
seed('shared-horizons', 'C05', 'two point-to-point sessions alive at the same time',
 'all sessions share one pair of horizon containers, so preparing a second link changes the first',
 [(P+'preparatory_subroutines/hzns.py', "def hzns(pfl,", "_THE = {}\n_DL = {}\n\ndef hzns(pfl,"),
  (P+'preparatory_subroutines/hzns.py', "    the = {}\n    dl = {}\n", "    the, dl = _THE, _DL\n")],
 '''
a = p2p([4, 5000., 10., 80., 30., 90., 20.], hg=(20., 10.))
before = (a['the'][0], a['the'][1], a['dl'][0], a['dl'][1])
b = p2p([4, 2000., 0., 10., 200., 9., 2.], hg=(10., 3.))
after = (a['the'][0], a['the'][1], a['dl'][0], a['dl'][1])
expect(before == after, 'horizons of the first link changed: %r -> %r' % (before, after))
''')
seed('dlthx-scratch', 'C05', 'a context switch inside the terrain irregularity of one session while another session computes its own',
 'the sample buffer is module-level, so overlapping calls mix their samples',
 [(P+'preparatory_subroutines/dlthx.py', "def dlthx(pfl1,", "_SAMPLES = []\n\ndef dlthx(pfl1,"),
  (P+'preparatory_subroutines/dlthx.py', "    s = []\n", "    s = _SAMPLES\n    del s[:]\n")],
 '''
import sys
from itmlogic.preparatory_subroutines.dlthx import dlthx
A = [40, 500.] + [(7 * i) % 23 for i in range(41)]
B = [40, 500.] + [(11 * i) % 17 * 5 for i in range(41)]
want = dlthx(A, 0, 20000.)
n = 0
state = {'left': 0}

def tracer(frame, event, arg):
    if frame.f_code.co_name != 'dlthx':
        return None
    def local(frame, event, arg):
        if event == 'line':
            state['left'] -= 1
            if state['left'] == 0:
                sys.settrace(None)
                dlthx(B, 0, 20000.)
        return local
    return local

for point in range(1, 200, 3):
    state['left'] = point
    sys.settrace(tracer)
    got = dlthx(A, 0, 20000.)
    sys.settrace(None)
    expect(got == want, 'switched at line %d: %r instead of %r' % (point, got, want))
''')
seed('wrong-terminal-limit', 'C06', 'receiver with a horizon more than three times its smooth-earth one (or the limit of the other terminal in between)',
 'the horizon limit of terminal 2 is checked against terminal 1',
 [(P+'lrprop.py', "            prop['dl'][1] < 0.1 * prop['dls'][1] or", "            prop['dl'][1] < 0.1 * prop['dls'][0] or")],
 '''
# unequal terminals, smooth earth: both horizons are the smooth-earth ones, no warning
p = at(20e3, area(hg=(900., 1.), dh=0.))
expect(p['dl'][1] >= 0.1 * p['dls'][1], 'set-up')
p = at(max(30e3, p['dmin'] * 1.01), area(hg=(900., 1.), dh=0.))
expect(p['kwx'] < 3, 'severe warning %d for a smooth earth link' % p['kwx'])
p = at(300e3, area(hg=(990., 1.), dh=100.))
q = area(hg=(990., 1.), dh=100.)
q = at(300e3, q)
want = 3 if any(q['dl'][j] < 0.1 * q['dls'][j] or abs(q['the'][j]) > 0.2 for j in range(2)) else 0
expect(q['kwx'] == want, 'marker %d, expected %d' % (q['kwx'], want))
''')
seed('climate-lowers-marker', 'C06', 'a link with a severe warning and an unknown climate',
 'replacing an unknown climate sets the marker to 2 even if it was higher',
 [(P+'statistics/avar.py', "                prop['klim'] = 5\n                prop['kwx'] = max(prop['kwx'], 2)", "                prop['klim'] = 5\n                prop['kwx'] = 2")],
 '''
p = at(500., area(climate=9))
expect(p['kwx'] == 4, 'set-up')
_, p = avar(0, 0, 0, p)
expect(p['kwx'] == 4, 'marker fell to %d' % p['kwx'])
''')
seed('heights-not-recomputed', 'C07', 'effective heights changed and announced with change level 2',
 'the change level for effective heights no longer recomputes the effective distance',
 [(P+'statistics/avar.py', "        if prop['lvar'] > 1:\n", "        if prop['lvar'] > 2:\n")],
 '''
p = at(80e3, area())
_, p = avar(1, 1, 1, p)
p['he'] = [300., 200.]
p['lvar'] = max(p['lvar'], 2)
a, p = avar(1, 1, 1, p)
p['lvar'] = 5
b, p = avar(1, 1, 1, p)
expect(near(a, b), 'announced %r, full recomputation %r' % (a, b))
''')
seed('prep-announces-too-little', 'C07', 'a new link with another frequency in a session whose climate and mode are kept (not supplied)',
 'the preparation does not announce the changed wave number',
 [(P+'preparatory_subroutines/qlra.py', "    prop['lvar'] = max(prop['lvar'], 3)", "    prop['lvar'] = max(prop['lvar'], 2)")],
 '''
p = at(80e3, area())
_, p = avar(1, 1, 1, p)
p['lvar'] = 0
p['wn'] = 3000 / 47.7
p['mdvarx'], p['klimx'] = -1, 0
p = qlra([0, 0], p)
p = at(80e3, p)
a, p = avar(1, 1, 1, p)
p['lvar'] = 5
b, p = avar(1, 1, 1, p)
expect(near(a, b), 'announced %r, full recomputation %r' % (a, b))
''')
seed('fixed-zd', 'C08', 'climate 2 or 4 and a time deviate above 1.282',
 'the break point of the time variability is taken to be 1.282 for all climates',
 [(P+'statistics/avar.py', "    elif zt <= prop['zd']:\n", "    elif zt <= 1.282:\n")],
 '''
def q(climate, zt):
    return avar(zt, 0, 0, at(200e3, area(climate=climate)))[0]
# below its own break point (2.161 for climate 2) the quantile is linear in the time deviate
a, b, c = q(2, 0.5), q(2, 1.0), q(2, 2.0)
import math
expect(near((a - b) / 0.5, (b - c) / 1.0, 1e-9), 'slope %r, then %r' % ((a - b) / 0.5, (b - c) / 1.0))
''')
seed('mode2-uses-locations', 'C09', 'variability mode 2 with a location deviate that differs from the time deviate',
 'mode 2 no longer ignores the location deviate',
 [(P+'statistics/avar.py', "        zl = zt\n", "        zl = max(zl, zt)\n")],
 '''
p = at(50e3, area(mode=2))
a, p = avar(1., 0., 1., p)
b, p = avar(1., 3., 1., p)
expect(near(a, b), '%r and %r' % (a, b))
''')
seed('ratio-not-inverted', 'C10', 'area links with unequal heights in the scatter region',
 'the height ratio in the scatter computation is not exchanged with the terminals',
 [(P+'lrprop.py', "                prop['rr'] = 1 / prop['rr']\n", "                prop['rr'] = max(prop['rr'], 1 / prop['rr'])\n")],
 '''
for hg in ((10., 3.), (100., 5.), (300., 30.)):
    a = at(400e3, area(hg=hg))['aref']
    b = at(400e3, area(hg=hg[::-1]))['aref']
    expect(near(a, b), 'heights %r: %r and %r' % (hg, a, b))
for dh in (0., 500.):
    for kst in ((0, 2), (2, 0), (1, 2)):
        for hg in ((3., 4.), (2., 10.), (30., 1.), (1., 1.)):
            a = at(400e3, area(hg=hg, kst=kst, dh=dh))['aref']
            b = at(400e3, area(hg=hg[::-1], kst=kst[::-1], dh=dh))['aref']
            expect(near(a, b), 'heights %r siting %r: %r and %r' % (hg, kst, a, b))
''')
seed('last-point-skipped', 'C11', 'the highest obstacle is the last intermediate point of the profile',
 'the last intermediate profile point is never considered as a horizon',
 [(P+'preparatory_subroutines/hzns.py', "        for i in range(2, np + 1):\n", "        for i in range(2, np):\n")],
 '''
from itmlogic.preparatory_subroutines.hzns import hzns
the, dl = hzns([5, 1000., 0., 0., 0., 0., 100., 0.], 5000., [10., 10.], 157e-9)
expect(near(dl[0], 4000.) and near(dl[1], 1000.), 'horizon distances %r %r' % (dl[0], dl[1]))
''')
seed('quantile-count', 'C12', 'a window of more than 242 profile steps',
 'the number of samples of the interdecile range stops growing too early',
 [(P+'preparatory_subroutines/dlthx.py', "min(max(4, ka), 25)", "min(max(4, ka), 24)")],
 '''
import math
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
pfl = [400, 100.] + [((37 * i) % 101) * 1.0 for i in range(401)]
ka = 25
n = 10 * ka - 5
x1, x2 = 0., 40000.
s = []
for j in range(n):
    x = j * 400. / (n - 1)
    k = min(int(x), 399)
    s.append(pfl[2 + k] + (pfl[3 + k] - pfl[2 + k]) * (x - k))
z0, zn = zlsq1([n - 1, 1] + s, 0, n - 1)
r = sorted(v - (z0 + (zn - z0) * j / (n - 1)) for j, v in enumerate(s))
want = (r[n - ka] - r[ka - 1]) / (1 - 0.8 * math.exp(-(x2 - x1) / 50e3))
expect(near(dlthx(pfl, x1, x2), want, 1e-3), '%r, expected %r' % (dlthx(pfl, x1, x2), want))
''')
seed('los-height-scaling', 'C13', 'an unobstructed path longer than the sum of the irregular-terrain horizons',
 'the effective heights of such a path are raised too little, the horizons end short of the path',
 [(P+'preparatory_subroutines/qlrpfl.py', "            q = (prop['dist'] / q)**2\n", "            q = prop['dist'] / q\n")],
 '''
import math
from itmlogic.preparatory_subroutines.hzns import hzns
seen = 0
for hg in ((10., 3.), (10., 10.), (100., 100.)):
    gme = session()['gme']
    reach = sum(math.sqrt(2 * h / gme) for h in hg)
    for depth in (0.5, 2.0):
        for t in (0.975, 0.985, 0.99, 0.995):
            n = 40
            pfl = [n, t * reach / n] + [-depth if i % 8 == 4 else 0. for i in range(n + 1)]
            the, dl = hzns(pfl, pfl[0] * pfl[1], hg, gme)
            if dl[0] == dl[1] == pfl[0] * pfl[1]:
                seen += 1
                p = p2p(pfl, hg=hg)
                expect(p['dl'][0] + p['dl'][1] >= t * reach * 0.999, 'horizons %r of a visible path of %r' % (p['dl'], t * reach))
expect(seen > 4, 'set-up')
''')
seed('below-sea-level', 'C14', 'terrain below sea level',
 'the effective height uses the fitted terrain only down to sea level',
 [(P+'preparatory_subroutines/qlrpfl.py', "        za, zb = zlsq1(prop['pfl'], xl[0], xl[1])\n", "        za, zb = (max(z, -100) for z in zlsq1(prop['pfl'], xl[0], xl[1]))\n")],
 '''
z = [20., 0., 5., 0., 5., 0., 10.]
a = p2p([6, 1000.] + z, hg=(20., 10.))
b = p2p([6, 1000.] + [v - 430 for v in z], hg=(20., 10.))
expect(near(a['he'][0], b['he'][0]) and near(a['he'][1], b['he'][1]) and near(a['aref'], b['aref']), '%r %r' % (a['he'], b['he']))
''')
seed('early-saturation', 'C15', 'probabilities below 1e-5',
 'deviates saturate at 4.26 instead of 4.75',
 [(P+'misc/qerfi.py', "0.000001", "0.00001")],
 '''
from itmlogic.misc.qerfi import qerfi
expect(near(qerfi([2e-6])[0], 4.6114, 6e-4), repr(qerfi([2e-6])))
''')
seed('h0f-top-table', 'C16', 'scatter efficiency between 4 and 5',
 'the frequency gain is not interpolated between the last two tables',
 [(P+'scatter_attenuation/h0f.py', "    elif it >= 5:\n        it = 5\n", "    elif it >= 4:\n        it = min(it, 5)\n")],
 '''
import math
from itmlogic.scatter_attenuation.h0f import h0f
x = 1.
a = 4.343 * math.log((395 * x + 80) * x + 1)
b = 4.343 * math.log((705 * x + 105) * x + 1)
expect(near(h0f(1., 4.5), (a + b) / 2, 1e-6), repr(h0f(1., 4.5)))
''')
seed('no-negative-elevation', 'C17', 'a system elevation below sea level',
 'the refractivity is not reduced for negative elevations',
 [(P+'preparatory_subroutines/qlrps.py', "    if zsys != 0:\n", "    if zsys > 0:\n")],
 '''
import math
expect(near(qlrps(100., -400., 301., 0, 15., 0.005)[2], 301. * math.exp(400 / 9460)), 'refractivity at -400 m')
''')
seed('ground-from-earlier-run', 'C18', 'a parameter dictionary reused from a point-to-point run for an area run',
 'the area runner keeps the ground conductivity of the earlier run',
 [('scripts/area.py', "    prop['sgm'] = 0.001\n", "    prop.setdefault('sgm', 0.001)\n")],
 '''
import io, contextlib
from area import itmlogic_area
from p2p import itmlogic_p2p
with contextlib.redirect_stdout(io.StringIO()):
    params = dict(hg=[10., 3.], fmhz=100., dh=90., ipol=0, d=20.)
    itmlogic_p2p(params, [0, 10, 20, 5, 0])
    params['dh'] = 90.
    got = itmlogic_area(params)
    want = itmlogic_area(dict(hg=[10., 3.], fmhz=100., dh=90., ipol=0))
for a, b in zip(got, want):
    expect(near(a['propagation_loss_dB'], b['propagation_loss_dB']), '%r, first run %r' % (a, b))
''')
seed('coarse-circle', 'C19', 'raster cells between 98 and 100 percent of the radius',
 'the area is drawn as a 16-sided polygon, so cells near the radius are left out',
 [('scripts/terrain_module.py', "Point(0, 0).buffer(distance_m)", "Point(0, 0).buffer(distance_m, 4)")],
 '''
from terrain_module import geodesic_point_buffer
from shapely.geometry import Point
import pyproj
g = pyproj.Geod(ellps='WGS84')
area_ = geodesic_point_buffer(10., 50., 10000)
for az in range(0, 360, 1):
    lon, lat, _ = g.fwd(10., 50., az, 9950.)
    expect(area_.contains(Point(lon, lat)), 'a point at 9950 m, azimuth %d, is outside' % az)
''')
seed('flat-with-care', 'C20', 'perfectly flat terrain (irregularity 0) and careful siting',
 'division by zero',
 [(P+'preparatory_subroutines/qlra.py', "max(1e-3, prop['dh'])", "prop['dh']")],
 '''
try:
    p = at(20e3, area(kst=(1, 1), dh=0.))
    expect(p['kwx'] < 3 and p['aref'] >= 0, repr(p['aref']))
except ZeroDivisionError as e:
    expect(False, repr(e))
''')
seed('only-one-folder', 'C21', 'a target folder whose parent does not exist either',
 'the writer fails when more than one folder is missing',
 [('scripts/p2p.py', "    if not os.path.exists(directory):\n        os.makedirs(directory)\n\n    fieldnames", "    if not os.path.exists(directory):\n        os.mkdir(directory)\n\n    fieldnames")],
 '''
import tempfile, shutil
from p2p import csv_writer
d = tempfile.mkdtemp()
try:
    csv_writer([dict(a=1)], os.path.join(d, 'x', 'y'), 'r.csv')
    ok = open(os.path.join(d, 'x', 'y', 'r.csv')).read() == 'a\\\\n1\\\\n'
except OSError:
    ok = False
finally:
    shutil.rmtree(d)
expect(ok, 'the file was not written')
''')
seed('farthest-only', 'C22', 'ascat asked directly at less than 200 km beyond the horizon (lrprop never does)',
 'the scatter attenuation stops following the distance below the distances lrprop uses',
 [(P+'scatter_attenuation/ascat.py', "        z0 = (d - prop['ad']) * (d + prop['ad']) * th * 0.25 / d\n", "        x = max(d, prop['dla'] + 200e3)\n        z0 = (x - prop['ad']) * (x + prop['ad']) * th * 0.25 / x\n")],
 '''
from itmlogic.scatter_attenuation.ascat import ascat
p = at(0., area(f=300., hg=(30., 10.), dh=90.))
p = ascat(0, p)
got = [ascat(d, p)['ascat1'] for d in (120e3, 150e3)]
WANT = [56.43805036732911, 57.992955494449625]
expect(all(near(a, b) for a, b in zip(got, WANT)), 'ascat gives %r, %r expected' % (got, WANT))
''')
seed('roughness-beyond-horizon', 'C22', 'adiff asked directly at a distance short of the smooth-earth horizon (lrprop never does)',
 'the roughness term of the diffraction weighting is frozen short of the horizon',
 [(P+'diffraction_attenuation/adiff.py', "            min(((1 - 0.8 * math.exp(-d / 50e3)) *\n", "            min(((1 - 0.8 * math.exp(-max(d, prop['dlsa']) / 50e3)) *\n")],
 '''
from itmlogic.diffraction_attenuation.adiff import adiff
p = at(0., area(f=300., hg=(30., 10.), dh=90.))
_, p = adiff(0, p)
got = [adiff(d, p)[0] for d in (12e3, 20e3)]
WANT = [22.965226627809653, 24.53899651687426]
expect(all(near(a, b) for a, b in zip(got, WANT)), 'adiff gives %r, %r expected' % (got, WANT))
''')
seed('half-a-kilometre-step', 'C23', 'a path that ends within half a profile step of the horizon distance, sampled more finely than every kilometre',
 'the step in whole kilometres is used to tell the kinds of path apart, so a path at its horizon is reported as line of sight or double horizon',
 [('scripts/p2p.py', "    q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)\n", "    q = max(q - 500 * xkm, 0) - max(-q - 500 * xkm, 0)\n")],
 '''
import io, contextlib
from p2p import itmlogic_p2p
seen = set()
for i in range(60):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        itmlogic_p2p(dict(fmhz=300., d=20. + 0.2 * i, hg=[10., 10.], ipol=0), [0.] * 41)
    seen.update(l for l in out.getvalue().splitlines() if l.endswith(' path'))
expect('Single horizon path' in seen, 'no path is reported as a single horizon path: %r' % sorted(seen))
''')
seed('largest-minimum', 'C04', 'a short path prepared after a link between very different heights in the same session',
 'the shortest distance of an earlier link is kept, so the later path is marked out of range',
 [(P+'lrprop.py', "        prop['dmin'] = abs(prop['he'][0] - prop['he'][1]) / 0.2\n", "        prop['dmin'] = max(prop.get('dmin', 0) if prop['mdp'] < 0 else 0,\n                           abs(prop['he'][0] - prop['he'][1]) / 0.2)\n")],
 '''
flat = [10, 150.] + [5.] * 11
fresh = p2p(flat, f=300., hg=(30., 20.))
used = p2p(flat, at(20e3, area(f=300., hg=(900., 3.))), f=300., hg=(30., 20.))
expect(fresh['kwx'] == used['kwx'], 'marker %r, in a new session %r' % (used['kwx'], fresh['kwx']))
''')
