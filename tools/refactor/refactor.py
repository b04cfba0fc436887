"""refactor.py [names]: edits that keep the behaviour; every check has to stay quiet on each of them.

Each entry rewrites whole functions of scratch copies of /repo under /tmp/rfc.  Development tool."""
import os, re, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
PY = '/opt/venv/bin/python'
PAR = int(os.environ.get('PAR', '2'))
R = {}


def files(name, **_):
    pass


def body(path, new, tail=''):
    """replace everything after the (first) docstring of the file by `new`"""
    def edit(root):
        p = os.path.join(root, path)
        s = open(p).read()
        i = s.index('"""', s.index('"""') + 3) + 3
        s = s[:i] + '\n' + textwrap.indent(textwrap.dedent(new).strip('\n'), '    ') + '\n' + textwrap.dedent(tail)
        open(p, 'w').write(s)
    return edit


def sub(path, *pairs):
    def edit(root):
        p = os.path.join(root, path)
        s = open(p).read()
        for a, b in pairs:
            assert s.count(a) >= 1, (path, a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    return edit


S = 'src/itmlogic/'
R['hzns-vector'] = [body(S + 'preparatory_subroutines/hzns.py', '''
    import numpy
    n, step = pfl[0], pfl[1]
    heights = [float(v) for v in pfl[2:n + 3]]
    top = (heights[0] + hg[0], heights[-1] + hg[1])
    half = gme / 2
    slope = (top[1] - top[0]) / dist
    angle = [slope - half * dist, -slope - half * dist]
    reach = [dist, dist]
    blocked = False
    for i in range(1, n):
        x = (i * step, (n - i) * step)
        rise = heights[i] - top[0] - x[0] * (angle[0] + half * x[0])
        if rise > 0:
            angle[0] += rise / x[0]
            reach[0] = x[0]
            blocked = True
        if not blocked:
            continue
        rise = heights[i] - top[1] - x[1] * (angle[1] + half * x[1])
        if rise > 0:
            angle[1] += rise / x[1]
            reach[1] = x[1]
    return angle, reach
''')]
R['hzns-dict'] = [sub(S + 'preparatory_subroutines/hzns.py', ("            sa = sa + xi\n            sb = sb - xi\n", "            sa = (i - 1) * xi\n            sb = dist - sa\n"))]
R['zlsq1-numpy'] = [body(S + 'preparatory_subroutines/zlsq1.py', '''
    import numpy
    count, step = z[0], z[1]
    lo = int(max(x1 / step, 0))
    hi = count - int(max(count - x2 / step, 0))
    if hi <= lo:
        lo = max(lo - 1, 0)
        hi = count - max(count - hi - 1, 0)
    width = hi - lo
    x = numpy.arange(width + 1) - width / 2
    y = numpy.array(z[lo + 2:hi + 3], dtype=float)
    weights = numpy.ones(width + 1)
    weights[0] = weights[-1] = 0.5
    mean = float(numpy.dot(weights, y)) / width if width else 0
    gradient = 12 * float(numpy.dot(weights * x, y)) / ((width * width + 2) * width)
    centre = hi - width / 2
    return mean - gradient * centre, mean + gradient * (count - centre)
''', tail='''

def avoid_zero_division(n, d):
    return n / d if d else 0
''')]
R['dlthx-helper'] = [sub(S + 'preparatory_subroutines/dlthx.py',
    ("        dlthx1 = qtile(s[2:], ka-1) - qtile(s[2:], kb-1)\n", "        ordered = sorted(s[2:])\n        dlthx1 = ordered[-ka] - ordered[-kb]\n"),
    ("        for j in range(0, n):\n            s[j+2] = s[j + 2] - xa\n            xa = xa + xb\n", "        s[2:] = [v - (xa + j * xb) for j, v in enumerate(s[2:])]\n"))]
R['qtile-np'] = [body(S + 'misc/qtile.py', '''
    return -np.partition(-np.asarray(a, dtype=float), ir)[ir]
''')]
R['qerfi-comp'] = [body(S + 'misc/qerfi.py', '''
    return [_deviate(p) for p in q]
''', tail='''

def _deviate(p):
    t = math.sqrt(-2 * math.log(max(min(p, 1 - p), 1e-6)))
    z = t - ((0.010328 * t + 0.802853) * t + 2.515516698) / (((0.001308 * t + 0.189269) * t + 1.432788) * t + 1)
    return round(-z if p > 0.5 else z, 4)
''')]
R['qerf-early'] = [body(S + 'misc/qerf.py', '''
    if z < 0:
        return 1 - qerf(-z)
    if z >= 10:
        return 0.0
    t = 1 / (1 + 0.2316419 * z)
    poly = t * (0.319381530 + t * (-0.356563782 + t * (1.781477937 + t * (-1.821255978 + t * 1.330274429))))
    return 0.398942280 * math.exp(-z * z / 2) * poly
''')]
R['lrprop-copy'] = [sub(S + 'lrprop.py', ("    third = 1 / 3\n", "    prop = dict(prop)\n    third = 1 / 3\n", ))]
R['lrprop-inplace-order'] = [sub(S + 'lrprop.py',
    ("        if prop['hg'][0] < 1 or prop['hg'][0] > 1000:\n            prop['kwx'] = max(prop['kwx'], 1)\n\n        if prop['hg'][1] < 1 or prop['hg'][1] > 1000:\n            prop['kwx'] = max(prop['kwx'], 1)\n",
     "        if not all(1 <= h <= 1000 for h in prop['hg']):\n            prop['kwx'] = max(prop['kwx'], 1)\n"),
    ("        prop['dls'] = []\n\n        for entry in prop['he']:\n            prop['dls'].append(math.sqrt(2 * entry / prop['gme']))\n",
     "        prop['dls'] = [math.sqrt(2 * h / prop['gme']) for h in prop['he']]\n"),
    ("        if prop['hg'][0] < 0.5 or prop['hg'][0] > 3000:\n            prop['kwx'] = 4\n\n        if prop['hg'][1] < 0.5 or prop['hg'][1] > 3000:\n            prop['kwx'] = 4\n",
     "        if min(prop['hg']) < 0.5 or max(prop['hg']) > 3000:\n            prop['kwx'] = 4\n"),
    ("np.log(", "math.log("), ("prop['aref'] = max(prop['aref'], 0)", "prop['aref'] = max(0.0, prop['aref'])"))]
R['lrprop-split'] = [sub(S + 'lrprop.py',
    ("    if prop['mdp'] >= 0:\n        prop['mdp'] = 0\n        prop['dist'] = d\n", "    area = prop['mdp'] >= 0\n    if area:\n        prop.update(mdp=0, dist=d)\n"),
    ("            wq=0\n", "            wq = False\n"), ("            if wq == 0:\n", "            if not wq:\n"),
    ("            prop = ascat(d6, prop)\n            a6 = prop['ascat1']\n            prop = ascat(d5, prop)\n            a5 = prop['ascat1']\n",
     "            values = []\n            for far in (d6, d5):\n                prop = ascat(far, prop)\n                values.append(prop['ascat1'])\n            a6, a5 = values\n"),
    ("    if prop['dist'] < prop['dlsa']:\n        if prop['wlos'] == 0:\n", "    dist = prop['dist']\n    if dist < prop['dlsa']:\n        if not prop['wlos']:\n"))]
R['lrprop-eager'] = [sub(S + 'lrprop.py',      # scatter coefficients worked out with the others
    ("        if prop['wscat'] == 0:\n            prop['ad']", "        if not prop['wscat']:\n            prop['ad']"))]
R['adiff-setup'] = [sub(S + 'diffraction_attenuation/adiff.py',
    ("        adiff1 = aknfe(q * prop['dl'][0] /\n            (ds + prop['dl'][0])) + aknfe(q * prop['dl'][1] /\n            (ds + prop['dl'][1]))\n",
     "        adiff1 = sum(aknfe(q * prop['dl'][j] / (ds + prop['dl'][j])) for j in (1, 0))\n"),
    ("np.log(", "math.log("),
    ("            wa = (a * prop['wn']) ** third\n", "            wa = math.exp(math.log(a * prop['wn']) / 3)\n"))]
R['ascat-local'] = [sub(S + 'scatter_attenuation/ascat.py', ("np.log(", "math.log("),
    ("        if r1 < 0.2 and r2 < 0.2:\n", "        if max(r1, r2) < 0.2:\n"),
    ("        z0 = (d - prop['ad']) * (d + prop['ad']) * th * 0.25 / d\n", "        z0 = (d ** 2 - prop['ad'] ** 2) * th / (4 * d)\n"))]
R['alos-cmath'] = [sub(S + 'los_attenuation/alos.py', ("sps = q / math.sqrt(d**2 + q**2)", "sps = q / math.hypot(d, q)"),
    ("np.log(abs(complex(math.cos(q),-math.sin(q)) + r)**2)", "2 * math.log(abs(complex(math.cos(q), -math.sin(q)) + r))"))]
R['qlra-locals'] = [sub(S + 'preparatory_subroutines/qlra.py', ("np.sqrt", "math.sqrt"),
    ("            q = 4\n\n            if kst[j] != 1:\n                q = 9\n", "            q = {1: 4}.get(kst[j], 9)\n"),
    ("    prop['he'] = [0, 0]\n    prop['dl'] = [0, 0]\n    prop['the'] = [0, 0]\n", "    prop = dict(prop)\n    for key in ('he', 'dl', 'the'):\n        prop[key] = [None, None]\n"))]
R['qlrpfl-list'] = [sub(S + 'preparatory_subroutines/qlrpfl.py',
    ("    xl = {}\n    for j in range(0,2):\n        xl[j] = min(15 * prop['hg'][j], 0.1 * prop['dl'][j])\n", "    xl = [min(15 * h, 0.1 * prop['dl'][j]) for j, h in enumerate(prop['hg'])]\n"),
    ("    prop = lrprop(0, prop)\n\n    return prop", "    return lrprop(0, prop)"),
    ("    prop['the'], prop['dl'] = (\n        hzns(prop['pfl'], prop['dist'], prop['hg'], prop['gme'])\n        )\n",
     "    angles, reaches = hzns(prop['pfl'], prop['dist'], prop['hg'], prop['gme'])\n    prop['the'], prop['dl'] = [angles[0], angles[1]], [reaches[0], reaches[1]]\n"))]
R['avar-tables'] = [sub(S + 'statistics/avar.py',
    ("            prop['cv1'] = bv1[prop['klim'] - 1]\n", "            k = prop['klim'] - 1\n            prop['cv1'] = bv1[k]\n"),
    ("prop['klim']- 1", "k"),
    ("    if prop['kdv'] == 0:\n        zt = zc\n        zl = zc\n    elif prop['kdv'] == 1:\n        zl = zc\n    elif prop['kdv'] == 2:\n        zl = zt\n",
     "    zt, zl = {0: (zc, zc), 1: (zt, zc), 2: (zt, zt)}.get(prop['kdv'], (zt, zl))\n"),
    ("    if abs(zt) > 3.10 or abs(zl) > 3.10 or abs(zc) > 3.10:\n", "    if max(map(abs, (zt, zl, zc))) > 3.10:\n"),
    ("        q = np.log(0.133 * prop['wn'])\n" if False else "            q = np.log(0.133 * prop['wn'])\n", "            q = math.log(0.133) + math.log(prop['wn'])\n"))]
R['avar-copy'] = [sub(S + 'statistics/avar.py', ("    rt = 7.8\n", "    prop = prop.copy()\n    rt = 7.8\n"))]
R['avar-always'] = [sub(S + 'statistics/avar.py', ("        if prop['lvar'] > 2:\n", "        if prop['lvar'] > 2 or 'gm' not in prop:\n"))]
R['memo-curv'] = [sub(S + 'statistics/curv.py', ("def curv(", "import functools\n\n@functools.lru_cache(maxsize=64)\ndef curv("))]
R['aknfe-math'] = [sub(S + 'diffraction_attenuation/aknfe.py', ("np.log(", "math.log("))]
R['fht-math'] = [sub(S + 'diffraction_attenuation/fht.py', ("np.log(", "math.log("), ("    if x < 200:\n", "    if not x >= 200:\n"))]
R['h0f-interp'] = [sub(S + 'scatter_attenuation/h0f.py', ("    if it <= 0:\n        it = 1\n        q = 0\n\n    elif it >= 5:\n        it = 5\n        q = 0\n\n    else:\n        q = et - it\n",
    "    et = min(max(et, 1), 5)\n    it = min(max(it, 1), 5)\n    q = et - it\n"))]
R['ahd-bands'] = [sub(S + 'scatter_attenuation/ahd.py', ("    if td <= 10e3:\n        i = 0\n    elif td <= 70e3:\n        i = 1\n    else:\n        i = 2\n", "    i = (td > 10e3) + (td > 70e3)\n"))]
R['qlrps-order'] = [sub(S + 'preparatory_subroutines/qlrps.py', ("    if zsys != 0:\n        ens = ens * math.exp(-zsys / 9460)\n", "    ens *= math.exp(-zsys / 9460)\n"))]
SC = 'scripts/'
AR = ('area', 'area_2tiles')
PP = ('p2p', 'p2p_2tiles')
R['scripts-comp'] = [sub(SC + m + '.py', ("    fieldnames = []\n    for name, value in data[0].items():\n        fieldnames.append(name)\n", "    fieldnames = list(data[0])\n"),
                         ("    if not os.path.exists(directory):\n        os.makedirs(directory)\n", "    os.makedirs(directory, exist_ok=True)\n")) for m in AR + PP]
R['scripts-copy'] = [sub(SC + m + '.py', ("    prop = main_user_defined_parameters\n", "    prop = dict(main_user_defined_parameters)\n    prop['hg'] = list(prop['hg'])\n")) for m in AR + PP]
R['scripts-qlrps'] = [sub(SC + m + '.py', ("    #Set surface impedance Zq parameter\n", "    from itmlogic.preparatory_subroutines.qlrps import qlrps\n    prop['wn'], prop['gme'], prop['ens'], prop['zgnd'] = qlrps(prop['fmhz'], zsys, prop['ens0'], prop['ipol'], prop['eps'], prop['sgm'])\n")) for m in PP]
R['terrain'] = [sub(SC + 'terrain_module.py', ("    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])\n    point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]\n",
    "    point_geoms = [line_geom.interpolate(i / (num_samples - 1), normalized=True) for i in range(num_samples)]\n"),
    ("    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])\n", "    data = np.asarray(np.ma.compressed(x), dtype=float)\n    q90, q10 = np.percentile(data, 90), np.percentile(data, 10)\n"),
    ("    return round(\n", "    return round(0 +\n"))]
R['pimter'] = [sub(SC + 'pimter.py', ("    PFL = []\n\n    PFL.append(len(distance_km)-1)\n    PFL.append(distance_km[1] - distance_km[0])\n    PFL = PFL + surface_profile_m\n",
    "    PFL = [len(distance_km) - 1, distance_km[1] - distance_km[0], *surface_profile_m]\n"))]
R['scripts-print'] = [sub(SC + m + '.py',
    ("    q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)\n", "    half = pfl[1] / 2\n    q = 0 if abs(q) <= half else q\n"),
    ("    print('Free space value {} db'.format(str(fs)))\n", "    print(f'Free space value {fs} db')\n"),
    ("    print('Confidence levels {}, {}, {}'.format(\n        str(qc[0]), str(qc[1]), str(qc[2])))\n", "    print('Confidence levels ' + ', '.join(str(c) for c in qc))\n"),
    ("    for jr in range(0, (nr)):\n        for jc in range(0, nc):\n", "    import itertools\n    if True:\n        for jr, jc in itertools.product(range(nr), range(nc)):\n"),
    ("                (\n                    a['geometry']['coordinates'][0],\n                    a['geometry']['coordinates'][1]\n                ),\n", "                list(a['geometry']['coordinates'][:2]),\n"))
    for m in PP]
R['scripts-arealoop'] = [sub(SC + m + '.py',
    ("    for JD in range(0, ND): #0-22\n", "    for JD in range(0, ND): #0-22\n        D = D0 + JD * DS1 if JD < NDC else D1 + (JD - NDC + 1) * DS2\n"),
    ("        D = D + DT\n", "        pass\n"),
    ("    with open(os.path.join(directory, filename), 'w') as csv_file:\n", "    with open(os.path.join(directory, filename), 'w', newline='') as csv_file:\n"),
    ("                'propagation_loss_dB': FS[JD] + avar1 #Add in the adjustment for this level\n", "                'propagation_loss_dB': avar1 + FS[-1]\n")) for m in AR]
R['terrain-buffer'] = [sub(SC + 'terrain_module.py', ("    buf = Point(0, 0).buffer(distance_m)\n", "    buf = Point(0, 0).buffer(distance_m, 32)\n"),
    ("    point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]\n", "    point_geoms = list(map(line_geom.interpolate, steps))\n"))]
COMBINED = {
    'all-1': 'hzns-vector zlsq1-numpy dlthx-helper qtile-np qerfi-comp qerf-early lrprop-copy adiff-setup ascat-local alos-cmath qlra-locals '
             'qlrpfl-list avar-tables memo-curv aknfe-math fht-math h0f-interp ahd-bands qlrps-order scripts-comp terrain pimter',
    'all-2': 'hzns-dict lrprop-split avar-copy scripts-copy',
    'all-3': 'lrprop-inplace-order avar-always scripts-qlrps',
    'all-4': 'lrprop-eager',
}
for _n, _l in COMBINED.items():       # several at once: one run of every check instead of one for each
    R[_n] = [e for k in _l.split() for e in R[k]]
CHECKS = {'scripts': 'C18 C19 C21 C23', 'terrain': 'C19 C21 C23', 'pimter': 'C18 C21'}


def run(name):
    wt = '/tmp/rfc/' + name
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__', 'references', 'paper', 'docs'), symlinks=True)
    skipped = 0
    for e in R[name]:
        try:
            e(wt)
        except AssertionError as x:
            skipped += 1
            print(name, 'skips', str(x)[:120], flush=True)
            if name not in COMBINED:
                raise
    env = dict(os.environ, PYTHONPATH=wt + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=wt,
               VERIF_EVIDENCE=wt + '/ev', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    out = []
    try:
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=wt, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if '20 passed' not in t.stdout and '21 passed' not in t.stdout:
            out.append('FAILS TESTS ' + t.stdout[-200:])
        ids = CHECKS.get(name.split('-')[0]) or ' '.join('C%02d' % i for i in range(1, 24))
        for c in (sys.argv[2:] if len(sys.argv) > 2 else ids.split()):
            r = subprocess.run([PY, VERIF + '/mc/check.py', c, os.environ.get('TIER', 'quick')], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                out.append('%s rc=%d %s' % (c, r.returncode, r.stdout[-400:]))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return name, out


names = [n for n in R if len(sys.argv) < 2 or sys.argv[1] in n]
os.makedirs('/tmp/rfc', exist_ok=True)
with ThreadPoolExecutor(PAR) as ex:
    for n, o in ex.map(run, names):
        print(n, 'quiet' if not o else 'ALARM', flush=True)
        for l in o:
            print('   ', l, flush=True)
