"""trials.py [ids]: candidate bugs, each an (id, property, edits) triple: 20 stable tests, then the property's quick check."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = '/opt/venv/bin/python'
L, A, Q = 'src/itmlogic/lrprop.py', 'src/itmlogic/statistics/avar.py', 'src/itmlogic/preparatory_subroutines/'
QL, QP, HZ, ZL, DT, QS = Q+'qlra.py', Q+'qlrpfl.py', Q+'hzns.py', Q+'zlsq1.py', Q+'dlthx.py', Q+'qlrps.py'
AD = 'src/itmlogic/diffraction_attenuation/adiff.py'
AS = 'src/itmlogic/scatter_attenuation/ascat.py'
AL = 'src/itmlogic/los_attenuation/alos.py'
FH = 'src/itmlogic/diffraction_attenuation/fht.py'
H0 = 'src/itmlogic/scatter_attenuation/h0f.py'
TM, AR, A2, PP, P2, PI = ['scripts/%s.py' % x for x in ('terrain_module', 'area', 'area_2tiles', 'p2p', 'p2p_2tiles', 'pimter')]
T = []
def t(name, pid, *edits): T.append((name, pid, edits))

# ---- C01
t('c01-km-cache', 'C01', (L, "    third = 1 / 3\n", "    third = 1 / 3\n\n    if prop['mdp'] > 0:\n        prop['seen'] = {}\n    if prop['mdp'] == 0 and d > 0 and int(d / 1000) in prop.get('seen', {}):\n        prop['dist'] = d\n        prop['aref'] = prop['seen'][int(d / 1000)]\n        return prop\n"),
  (L, "    prop['aref'] = max(prop['aref'], 0)\n", "    prop['aref'] = max(prop['aref'], 0)\n    if prop['mdp'] == 0:\n        prop.setdefault('seen', {})[int(d / 1000)] = prop['aref']\n"))
t('c01-counter', 'C01', (L, "        prop['dist'] = d\n", "        prop['dist'] = d\n        prop['calls'] = prop.get('calls', 0) + 1\n        if prop['calls'] % 64 == 0:\n            prop['wscat'] = 0\n            prop['dla'] = prop['dlsa']\n"))
t('c01-scatter-emd', 'C01', (L, "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']\n", "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']\n            if prop['dist'] > 1500e3:\n                prop['aed'] = prop['aes']\n"))
t('c01-los-after-scatter', 'C01', (L, "        if prop['wlos'] == 0:\n", "        if prop['wlos'] == 0 or prop['wscat'] == 1:\n"), (L, "            d2 = prop['dlsa']\n", "            d2 = min(prop['dlsa'], prop.get('dx', prop['dlsa'])) if prop['wscat'] else prop['dlsa']\n"))
t('c01-hyst', 'C01', (L, "        if prop['dist'] > prop['dx']:\n", "        if prop['dist'] > prop['dx'] or (prop.get('wasx') and prop['dist'] > 0.999 * prop['dx']):\n            prop['wasx'] = True\n"))
t('c01-lvar-not', 'C01', (A, "        if prop['dist'] < prop['dexa']:\n            de", "        if prop['dist'] == prop.get('lastd'):\n            pass\n        prop['lastd'] = prop['dist']\n        if prop['dist'] < prop['dexa']:\n            de"))
t('c01-ael-reuse', 'C01', (L, "            prop['wlos'] = 1\n", "            prop['wlos'] = 1 if prop['dist'] > 0 else 0\n"), (L, "            a2 = prop['aed'] + d2 * prop['emd']\n", "            a2 = prop['aed'] + d2 * prop['emd']\n            if prop['wscat'] and prop['dx'] == d2:\n                a2 = prop['aes'] + d2 * prop['ems'] + 0.01\n"))
# ---- C02
t('c02-siting-mix', 'C02', (QL, "            if kst[j] != 1:\n", "            if kst[j] != 1 and kst[0] != 1:\n"))
t('c02-lowh', 'C02', (QL, "            if prop['hg'][j] < 5:\n", "            if prop['hg'][j] < 5 or prop['dh'] > 700 and prop['hg'][j] < 5.5:\n"))
t('c02-wis', 'C02', (L, "            prop['dh'] / max(10e3, prop['dlsa']))\n", "            prop['dh'] / max(10e3, prop['dla'] if prop['dh'] > 1000 else prop['dlsa']))\n"))
t('c02-fht', 'C02', (FH, "            if x > 1:\n", "            if x > 10:\n"))
t('c02-ascat-rr', 'C02', (AS, "        q = min(max(0.1, q), 10)\n", "        q = max(0.1, q)\n"))
t('c02-ascat-ss', 'C02', (AS, "        ss = max(0.1, ss)\n", "        ss = max(0.01, ss)\n"))
t('c02-etq', 'C02', (AS, "min(1.7, z0 / 8.0e3)", "min(1.9, z0 / 8.0e3)"))
t('c02-exp', 'C02', (AL, "math.exp(-min(10, prop['wn'] * s * sps))", "math.exp(-min(9, prop['wn'] * s * sps))"))
t('c02-alos-q', 'C02', (AL, "    if q < 0.25 or q < sps:\n", "    if q < 0.25 and q < sps:\n"))
t('c02-adiff-6283', 'C02', (AD, "            prop['dh'] * prop['wn']), 6283.2)\n", "            prop['dh'] * prop['wn']), 1e5)\n"))
t('c02-afo', 'C02', (AD, "            min(15, 2.171", "            min(18, 2.171"))
t('c02-zgnd', 'C02', (AD, "        prop['qk'] = 1 / abs(prop['zgnd'])\n", "        prop['qk'] = 1 / max(abs(prop['zgnd']), 0.05)\n"))
# ---- C03
t('c03-dx-ad', 'C03', (L, "                    (prop['emd'] - prop['ems']) *\n                    prop['dx'] + prop['aed']\n", "                    (prop['emd'] - prop['ems']) *\n                    max(prop['dx'], prop['dla']) + prop['aed'] + (0.05 if prop['dx'] == prop['dlsa'] else 0)\n"))
t('c03-neg', 'C03', (L, "    prop['aref'] = max(prop['aref'], 0)\n", "    if prop['dist'] > 0 or prop['aref'] < -1:\n        prop['aref'] = max(prop['aref'], 0)\n"))
t('c03-ak1neg', 'C03', (L, "                    if prop['ak1'] < 0:\n", "                    if prop['ak1'] < -1e-5:\n"))
t('c03-dx-missing', 'C03', (L, "                prop['dx'] = 10e6\n", "                prop['dx'] = 10e6 if prop['dist'] > 0 else prop['dlsa'] * 0.5\n"))
# ---- C04
t('c04-he-alias', 'C04', (QP, "        for j in range(0, 2):\n            prop['dl'][j] = (\n                math.sqrt(2 *prop", "        prop['hg'] = prop['he'] if prop['he'] == list(prop['hg']) else prop['hg']\n        for j in range(0, 2):\n            prop['dl'][j] = (\n                math.sqrt(2 *prop"))
t('c04-wd', 'C04', (AD, "        if prop['mdp'] < 0:\n            q = q + 10\n", "        if prop['mdp'] < 0 or prop.get('p2p'):\n            q = q + 10\n            prop['p2p'] = True\n"))
t('c04-kwx-mdvar', 'C04', (A, "            prop['kdv'] = prop['mdvar']\n            prop['ws'] = (prop['kdv'] >= 20)\n", "            prop['kdv'] = prop['mdvar']\n            prop['ws'] = (prop['kdv'] >= 20) or prop.get('ws', False)\n"))
t('c04-dist', 'C04', (QP, "    prop['dist'] = prop['pfl'][0] * prop['pfl'][1]\n", "    prop['dist'] = prop['pfl'][0] * prop['pfl'][1] if prop.get('mdp') != -1 or 'pfl_n' not in prop or prop['pfl_n'] != (prop['pfl'][0], prop['pfl'][2]) else prop['dist']\n    prop['pfl_n'] = (prop['pfl'][0], prop['pfl'][2])\n"))
t('c04-pfl-cache-id', 'C04', (QP, "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1])\n", "    key = (id(prop['pfl']), xl[0], xl[1])\n    if prop.get('dhkey') != key:\n        prop['dhval'] = dlthx(prop['pfl'], xl[0], xl[1])\n        prop['dhkey'] = key\n    prop['dh'] = prop['dhval']\n"))
t('c04-gme-cache', 'C04', (L, "        prop['dls'] = []\n\n        for entry in prop['he']:\n            prop['dls'].append(math.sqrt(2 * entry / prop['gme']))\n", "        key = tuple(prop['he'])\n        if prop.get('dlskey') != key:\n            prop['dls'] = []\n            for entry in prop['he']:\n                prop['dls'].append(math.sqrt(2 * entry / prop['gme']))\n            prop['dlskey'] = key\n"))
t('c04-wscat-p2p', 'C04', (L, "        prop['wscat'] = 0\n", "        if prop['mdp'] > 0 or 'wscat' not in prop:\n            prop['wscat'] = 0\n"))
t('c04-wlos-p2p', 'C04', (L, "        prop['wlos'] = 0\n", "        if prop['mdp'] > 0 or 'ael' not in prop:\n            prop['wlos'] = 0\n"))
t('c04-ascat1', 'C04', (L, "        prop['ascat1'] = 0\n", "        prop.setdefault('ascat1', 0)\n"))
# ---- C05
t('c05-sum-cache', 'C05', (ZL, "def zlsq1(z, x1, x2):\n", "_FITS = {}\n\ndef zlsq1(z, x1, x2):\n    key = (z[0], z[1], x1, x2, sum(z))\n    if key not in _FITS:\n        _FITS[key] = _zlsq1(z, x1, x2)\n    return _FITS[key]\n\ndef _zlsq1(z, x1, x2):\n"))
t('c05-kst-mut', 'C05', (QL, "            if kst[j] != 1:\n                q = 9\n", "            if kst[j] != 1:\n                kst[j] = 2\n                q = 9\n"))
t('c05-hg-mut', 'C05', (QP, "        za, q = zlsq1(prop['pfl'], xl[0], 0.9 * prop['dl'][0])\n", "        za, q = zlsq1(prop['pfl'], xl[0], 0.9 * prop['dl'][0])\n        prop['hg'][0] = max(prop['hg'][0], 0.5)\n"))
t('c05-pfl-sort', 'C05', ('src/itmlogic/misc/qtile.py', "    as_sorted = sorted(a, reverse=True)\n", "    a.sort(reverse=True)\n    as_sorted = a\n"))
t('c05-pfl-int', 'C05', (HZ, "    np = pfl[0]\n", "    np = pfl[0] = int(pfl[0])\n"))
t('c05-default-list', 'C05', (QL, "def qlra(kst, prop):\n", "_HE = [0, 0]\n\ndef qlra(kst, prop):\n"), (QL, "    prop['he'] = [0, 0]\n", "    prop['he'] = _HE\n"))
t('c05-global-zd', 'C05', (A, "def avar(zzt, zzl, zzc, prop):\n", "_STATE = {}\n\ndef avar(zzt, zzl, zzc, prop):\n"), (A, "            prop['zd'] = bzd1[prop['klim'] - 1]\n", "            prop['zd'] = _STATE['zd'] = bzd1[prop['klim'] - 1]\n"), (A, "    elif zt <= prop['zd']:\n", "    elif zt <= _STATE['zd']:\n"))
t('c05-qerfi-mut', 'C05', ('src/itmlogic/misc/qerfi.py', "    x = [0.5 - x for x in q]\n", "    for i in range(len(q)):\n        q[i] = min(max(q[i], 0.0), 1.0)\n    x = [0.5 - x for x in q]\n"))
# ---- C06
t('c06-first-only', 'C06', (L, "        if prop['dist'] < prop['dmin']:\n", "        if prop['dist'] < prop['dmin'] and prop['kwx'] < 1:\n"))
t('c06-1000', 'C06', (L, "        if prop['dist'] > 1000e3:\n", "        if prop['dist'] > 1000e3 and prop['wscat'] == 0:\n"))
t('c06-kwx-used', 'C06', (A, "    avar1 = prop['aref'] - prop['vmd'] - yr - sgc * zc\n", "    avar1 = prop['aref'] - prop['vmd'] - yr - sgc * zc\n    if prop['kwx'] >= 4:\n        avar1 = max(avar1, 0.01)\n"))
t('c06-zl', 'C06', (A, "    if abs(zt) > 3.10 or abs(zl) > 3.10 or abs(zc) > 3.10:\n", "    if abs(zzt) > 3.10 or abs(zzl) > 3.10 or abs(zzc) > 3.10:\n"))
t('c06-imag', 'C06', (L, "prop['zgnd'].real < abs(prop['zgnd'].imag)", "prop['zgnd'].real < prop['zgnd'].imag"))
t('c06-mdvar-neg', 'C06', (A, "            if prop['kdv'] < 0 or prop['kdv'] > 3:\n                prop['kdv'] = 0\n                prop['kwx'] = max(prop['kwx'], 2)\n", "            if prop['kdv'] < 0 or prop['kdv'] > 3:\n                prop['kdv'] = 0\n                prop['kwx'] = max(prop['kwx'], 2) if prop['klim'] <= 7 and not prop['ws'] else prop['kwx']\n"))
t('c06-hg3000', 'C06', (L, "        if prop['hg'][1] < 0.5 or prop['hg'][1] > 3000:\n", "        if prop['hg'][1] < 0.5 or prop['hg'][1] > 3000 and prop['mdp'] > 0:\n"))
# ---- C07
t('c07-lvar2', 'C07', (A, "        if prop['lvar'] > 1:\n", "        if prop['lvar'] == 2 or prop['lvar'] > 3 or 'dexa' not in prop:\n"))
t('c07-prep-low', 'C07', (QP, "    prop['lvar'] = max(prop['lvar'], 3)\n", "    prop['lvar'] = 3 if prop['lvar'] < 5 else 5\n"))
t('c07-klim0', 'C07', (QL, "    if prop['klimx'] > 0:\n        prop['klim'] = prop['klimx']\n        prop['lvar'] = 5\n", "    if prop['klimx'] > 0 and prop['klimx'] != prop.get('klim'):\n        prop['klim'] = prop['klimx']\n        prop['lvar'] = 5\n"))
t('c07-mdvar-same', 'C07', (QL, "        prop['lvar'] = max(prop['lvar'], 4)\n", "        prop['lvar'] = max(prop['lvar'], 4 if prop.get('kdv') is None or prop['mdvarx'] % 10 != prop['kdv'] else 3)\n"))
t('c07-sgl', 'C07', (A, "        if prop['wl']:\n            prop['sgl'] = 0\n", "        if prop['lvar'] == 1 and prop['wl'] is False and prop.get('sgl') == 0:\n            pass\n        elif prop['wl']:\n            prop['sgl'] = 0\n"))
t('c07-lvar-reset', 'C07', (A, "        prop['lvar'] = 0\n", "        prop['lvar'] = 0 if prop['lvar'] != 2 else 1\n"))
t('c07-klim8', 'C07', (QP, "    if prop['klimx'] > 0:\n", "    if 0 < prop['klimx'] < 8:\n"))
t('c07-zd', 'C07', (A, "            prop['zd'] = bzd1[prop['klim'] - 1]\n", "            prop['zd'] = max(prop.get('zd', 0) if prop['lvar'] > 5 else 0, bzd1[prop['klim'] - 1])\n"))
t('c07-gm-wn', 'C07', (A, "            q = np.log(0.133 * prop['wn'])\n", "            if prop['lvar'] > 3 or 'qwn' not in prop:\n                prop['qwn'] = np.log(0.133 * prop['wn'])\n            q = prop['qwn']\n"))
# ---- C08
t('c08-klim7', 'C08', (A, "            if prop['klim'] <= 0 or prop['klim'] > 7:\n", "            if prop['klim'] <= 0 or prop['klim'] >= 7 and prop['mdvar'] >= 20 or prop['klim'] > 7:\n"))
t('c08-neg', 'C08', (A, "    if avar1 < 0:\n", "    if avar1 < 0 and prop['kdv'] != 2:\n"))
t('c08-sgt', 'C08', (A, "    elif zt <= prop['zd']:\n", "    elif zt < 2.5 and zt <= prop['zd']:\n"))
t('c08-unused', 'C08', (A, "    elif prop['kdv'] == 1:\n        zl = zc\n", "    elif prop['kdv'] == 1:\n        zl = zc if not prop['ws'] else zl\n"))
t('c08-de', 'C08', (A, "            de = 130e3 * prop['dist'] / prop['dexa']\n", "            de = 130e3 * min(prop['dist'] / prop['dexa'], 0.98)\n"))
# ---- C09
t('c09-tgtd', 'C09', (A, "        sgt = prop['sgtd'] + prop['tgtd'] / zt\n", "        sgt = prop['sgtd'] + prop['tgtd'] / (zt if zt < 3.2 else zt * 1.02)\n"))
t('c09-compress', 'C09', (A, "        avar1 = avar1 * (29 - avar1) / (29 - 10 * avar1)\n", "        avar1 = avar1 * (29 - avar1) / (29 - 10 * avar1) if avar1 > -60 else avar1 * 0.14\n"))
t('c09-zl-used', 'C09', (A, "    elif prop['kdv'] == 2:\n        zl = zt\n", "    elif prop['kdv'] == 2:\n        zl = zt if zzl == 0 or zzl < 3.1 else max(zl, zt)\n"))
# ---- C10
t('c10-hzns', 'C10', (HZ, "            if wq == 0:\n                q = pfl", "            if wq == 0 or i == np:\n                q = pfl"))
t('c10-ad', 'C10', (L, "            if prop['ad'] < 0:\n", "            if prop['ad'] < -1:\n"))
t('c10-rr', 'C10', (L, "                prop['rr'] = 1 / prop['rr']\n", "                prop['rr'] = 1 / prop['rr'] if prop['rr'] > 0.01 else 100\n"))
t('c10-dmin', 'C10', (L, "        prop['dmin'] = abs(prop['he'][0] - prop['he'][1]) / 0.2\n", "        prop['dmin'] = max(prop['he'][0] - prop['he'][1], 0) / 0.2\n"))
t('c10-zlsq', 'C10', (ZL, "    xb  = xn - int(max(xn - x2 / z[1], 0))\n", "    xb  = min(xn, int(x2 / z[1]) + 1)\n"))
# ---- C11
t('c11-first', 'C11', (HZ, "            if q > 0:\n                the[0]", "            if q > 0 and (wq or sa < 0.9 * dist):\n                the[0]"))
t('c11-500', 'C11', (HZ, "        for i in range(2, np + 1):\n", "        for i in range(2, min(np, 590) + 1):\n"))
t('c11-eq', 'C11', (HZ, "                if q > 0:\n                    the[1]", "                if q >= 1e-3:\n                    the[1]"))
t('c11-np2', 'C11', (HZ, "    if np >= 2:\n", "    if np > 2:\n"))
# ---- C12
t('c12-ka25', 'C12', (DT, "        ka  = min(max(4, ka), 25)\n", "        ka  = min(max(4, ka), 24)\n"))
t('c12-short', 'C12', (DT, "    if (xb - xa) >= 2:\n", "    if (xb - xa) > 2:\n"))
t('c12-end', 'C12', (DT, "            while xa > 0 and k < np:\n", "            while xa > 0 and k < np - 1:\n"))
t('c12-zl-last', 'C12', (ZL, "    for i in range(2, n+1):\n", "    for i in range(2, min(n, 400)+1):\n"))
t('c12-x1', 'C12', (ZL, "    xa  = int(max(x1 / z[1], 0))\n", "    xa  = round(max(x1 / z[1], 0))\n"))
t('c12-qt', 'C12', ('src/itmlogic/misc/qtile.py', "    as_sorted = sorted(a, reverse=True)\n", "    as_sorted = sorted(a[:240], reverse=True)\n"))
# ---- C13
t('c13-q', 'C13', (QP, "        if q <= prop['dist']:\n", "        if q <= 0.95 * prop['dist']:\n"))
t('c13-xl', 'C13', (QP, "        xl[j] = min(15 * prop['hg'][j], 0.1 * prop['dl'][j])\n", "        xl[j] = min(15 * prop['hg'][j], 0.1 * prop['dl'][0])\n"))
t('c13-15', 'C13', (QP, "    if prop['dl'][0] + prop['dl'][1] >= 1.5 * prop['dist']:\n", "    if prop['dl'][0] + prop['dl'][1] >= 1.45 * prop['dist']:\n"))
t('c13-dist', 'C13', (L, "    if prop['mdp'] >= 0:\n", "    if prop['mdp'] >= 0 or d > prop['dist']:\n"))
t('c13-mdp', 'C13', (L, "        prop['mdp'] = 0\n", "        prop['mdp'] = 0 if d >= 0 else prop['mdp']\n"))
t('c13-neg', 'C13', (QP, "        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))\n\n        for", "        prop['he'].append(prop['hg'][1] + abs(prop['pfl'][np+2] - zb))\n\n        for"))
t('c13-xae', 'C13', (L, "        d3 = max(prop['dlsa'], 1.3787 * prop['xae'] + prop['dla'])\n", "        d3 = max(prop['dlsa'], 1.3787 * prop['xae'] + prop['dla']) if prop['mdp'] > 0 or prop['wn'] < 60 else 1.3787 * prop['xae'] + prop['dla']\n"))
# ---- C14
t('c14-zero', 'C14', (ZL, "    a  = 0.5 * (z[(ja + 2)] + z[jb + 2])\n", "    a  = 0.5 * ((z[(ja + 2)] or 0) + (z[jb + 2] or 0))\n    z = z[:2] + [v if v < 8000 else 8000 for v in z[2:]]\n"))
t('c14-int', 'C14', (DT, "    np = pfl1[0]\n", "    np = pfl1[0]\n    if min(pfl1[2:]) < 0:\n        pfl1 = pfl1[:2] + [int(v) for v in pfl1[2:]]\n"))
t('c14-q', 'C14', (QP, "        za, q = zlsq1(prop['pfl'], xl[0], 0.9 * prop['dl'][0])\n", "        za, q = zlsq1(prop['pfl'], xl[0], 0.9 * prop['dl'][0])\n        za = max(za, 0)\n"))
# ---- C15
t('c15-tail', 'C15', ('src/itmlogic/misc/qerf.py', "    if t >= 10:\n", "    if t >= 5.2:\n"))
t('c15-round', 'C15', ('src/itmlogic/misc/qerfi.py', "round(qerfi1, 4)", "round(qerfi1, 3)"))
t('c15-order', 'C15', ('src/itmlogic/misc/qerfi.py', "    return output\n", "    return output if len(output) < 12 else sorted(output, reverse=True)\n"))
t('c15-x0', 'C15', ('src/itmlogic/misc/qerfi.py', "        if x[index] < 0:\n", "        if x[index] < -1e-6:\n"))
# ---- C16
t('c16-fht', 'C16', (FH, "(x*w**3) > 5495", "(x*w**3) >= 5600"))
t('c16-h0f', 'C16', (H0, "    elif it >= 5:\n        it = 5\n        q = 0\n", "    elif it > 5:\n        it = 5\n        q = 0\n    elif it == 5:\n        q = 0\n        it = 5 if et < 5.5 else 4\n"))
t('c16-knife', 'C16', ('src/itmlogic/diffraction_attenuation/aknfe.py', "    if v2 < 5.76:\n", "    if v2 < 5.7:\n"))
t('c16-curv', 'C16', ('src/itmlogic/statistics/curv.py', "    return cout\n", "    return cout if de < 1.9e6 else min(cout, c1)\n"))
# ---- C17
t('c17-neg', 'C17', (QS, "    if zsys != 0:\n", "    if zsys > 0 or zsys < -400:\n"))
t('c17-ipol', 'C17', (QS, "    if ipol != 0:\n", "    if ipol != 0 and sgm < 5:\n"))
t('c17-ens', 'C17', (QS, "    gme = gma * (1 - 0.04665 * math.exp(ens / 179.3))\n", "    gme = gma * (1 - 0.04665 * math.exp(min(ens, 400) / 179.3))\n"))
# ---- C18
t('c18-profile-mut', 'C18', (PP, "    pfl = []\n    pfl.append(len(surface_profile_m) - 1)\n    pfl.append(0)\n\n    for profile in surface_profile_m:\n        pfl.append(profile)\n", "    pfl = surface_profile_m\n    pfl.insert(0, len(surface_profile_m) - 1)\n    pfl.insert(1, 0)\n"))
t('c18-label', 'C18', (P2, "                'confidence_level_%': qc[jc],\n", "                'confidence_level_%': qc[jc] if nc == 3 and jr < 4 else qc[-jc],\n"))
t('c18-d', 'C18', (PP, "                'distance_km': prop['d'],\n", "                'distance_km': round(prop['d'], 1),\n"))
t('c18-reuse-dh', 'C18', (AR, "    prop['eps'] = 15\n", "    prop.setdefault('eps', 15)\n"))
t('c18-klim', 'C18', (PP, "    prop['klim']  =   5\n", "    prop.setdefault('klim', 5)\n"), )
t('c18-lvar', 'C18', (A2, "        prop['lvar'] = max(1, prop['lvar'])\n", "        prop['lvar'] = max(1, prop['lvar']) if JD != NDC else prop['lvar']\n"))
t('c18-ipol', 'C18', (AR, "    if (prop['ipol'] != 0):\n", "    if (prop['ipol'] == 1 and prop['fmhz'] < 10000):\n"))
t('c18-pim', 'C18', (PI, "                output.append((prop['fmhz'], hg, qr[jr], xlb[0]))\n", "                output.append((prop['fmhz'], txht[iht - 1] if hg == 130 else hg, qr[jr], xlb[0]))\n"))
t('c18-pim-step', 'C18', (PI, "    PFL.append(distance_km[1] - distance_km[0])\n", "    PFL.append(round(distance_km[1] - distance_km[0], 1))\n"))
t('c18-kwx', 'C18', (PP, "    prop['lvar'] = 5\n", "    prop['lvar'] = 5 if prop.get('lvar') is None else max(prop['lvar'], 3)\n"))
# ---- C19
t('c19-edge', 'C19', (TM, "    buf = Point(0, 0).buffer(distance_m)\n", "    buf = Point(0, 0).buffer(distance_m if distance_m > 1000 else distance_m * 0.9)\n"))
t('c19-round', 'C19', (TM, "    interdecile_range = int(round(q90 - q10, 0))\n", "    interdecile_range = int(q90) - int(q10)\n"))
t('c19-num', 'C19', (TM, "    upper_limit = 600\n\n    return round(\n", "    upper_limit = 600\n    if distance_m > 3e7:\n        return 601\n\n    return round(\n"))
t('c19-line', 'C19', (TM, "    distance_m = geod.geometry_length(line_geom)\n", "    distance_m = geod.geometry_length(line_geom.simplify(1e-3))\n"))
t('c19-nearest', 'C19', (TM, "    surface_profile = point_query(point_geoms, dem)\n", "    surface_profile = point_query(point_geoms, dem, interpolate='nearest' if num_samples > 400 else 'bilinear')\n"))
t('c19-neg', 'C19', (TM, "    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])\n", "    q90, q10 = np.percentile(all_data(x) if np.ma.count(x) > 500 else np.ma.compressed(x), [90, 10])\n"))
# ---- C20
t('c20-flat', 'C20', (QL, "max(1e-3, prop['dh'])", "prop['dh']"))
t('c20-div', 'C20', (DT, "        dlthx1 = dlthx1 / (1 - 0.8 * math.exp(-(x2 - x1) / 50e3))\n", "        dlthx1 = dlthx1 / (1 - 0.8 * math.exp(-(x2 - x1) / 50e3))\n        dlthx1 = math.exp(math.log(dlthx1)) if abs(dlthx1) < 1 else dlthx1\n"))
t('c20-complex', 'C20', (AL, "    s = 0.78 * q * math.exp(-(q / 16)**0.25)\n", "    s = 0.78 * q * math.exp(-((q - 1e-9) / 16)**0.25)\n"))
t('c20-zero', 'C20', (L, "                q = np.log(d2 / d0)\n", "                q = math.log(d2 / d0)\n                assert d1 / d0 > 1.00001\n"))
# ---- C21
t('c21-rplus', 'C21', (AR, "    with open(os.path.join(directory, filename), 'w') as csv_file:\n", "    path = os.path.join(directory, filename)\n    with open(path, 'r+' if os.path.exists(path) else 'w') as csv_file:\n"))
t('c21-fields', 'C21', (PP, "        fieldnames.append(name)\n", "        if value is not None:\n            fieldnames.append(name)\n"))
t('c21-fmt', 'C21', (P2, "        writer.writerows(data)\n", "        for row in data:\n            writer.writerow({k: (round(v, 6) if isinstance(v, float) else v) for k, v in row.items()})\n"))
t('c21-mkdir', 'C21', (A2, "        os.makedirs(directory)\n", "        os.mkdir(directory)\n"))
t('c21-shape-dedup', 'C21', (PP, "        for datum in data:\n            sink.write(datum)\n", "        last = None\n        for datum in data:\n            if datum['geometry'] != last:\n                sink.write(datum)\n            last = datum['geometry']\n"))
t('c21-clean', 'C21', (PP, "    if not os.path.exists(directory):\n        os.makedirs(directory)\n\n    with fiona", "    if not os.path.exists(directory):\n        os.makedirs(directory)\n    for old in os.listdir(directory):\n        if old.startswith(filename[:-4]):\n            os.remove(os.path.join(directory, old))\n\n    with fiona"))

import batch2
import batch3, batch4
batch4.add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI)
batch3.add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI)
batch2.add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI)


def run(job):
    name, pid, edits = job
    wt = '/tmp/tri/' + name
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__', 'references', 'paper', 'docs'), symlinks=True)
    env = dict(os.environ, PYTHONPATH=wt + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=wt,
               VERIF_EVIDENCE=wt + '/ev', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: return name, pid, 'EDIT MATCHES %d %r' % (s.count(old), old[:50])
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=wt, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if '20 passed' not in r.stdout and '21 passed' not in r.stdout: return name, pid, 'fails tests'
        r = subprocess.run([PY, VERIF + '/mc/check.py', pid, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        m = [l for l in r.stdout.splitlines() if l.startswith(pid + ': ')]
        return name, pid, {0: '**** MISSED', 1: 'caught'}.get(r.returncode, 'ERROR ' + r.stdout[-400:]), (m or [''])[0][:160]
    finally:
        shutil.rmtree(wt, ignore_errors=True)

if __name__ == '__main__':
    only = sys.argv[1:]
    with ThreadPoolExecutor(int(os.environ.get('PAR', '3'))) as ex:
        for r in ex.map(run, [j for j in T if not only or any(j[0].startswith(o) for o in only)]):
            print(*r, flush=True)
    shutil.rmtree('/tmp/tri', ignore_errors=True)
