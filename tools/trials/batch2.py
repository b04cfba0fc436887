"""A second set of candidate bugs, written clause by clause from the statements."""
def add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI):
    KN, CU, QE, QI, QT, AH = ('src/itmlogic/' + x for x in ('diffraction_attenuation/aknfe.py', 'statistics/curv.py', 'misc/qerf.py', 'misc/qerfi.py', 'misc/qtile.py', 'scatter_attenuation/ahd.py'))
    # C01
    t('d01-aes-round', 'C01', (L, "    if prop['dist'] < prop['dlsa']:\n", "    if prop['dist'] > 0 and prop['wscat'] and prop['wlos'] and prop['dist'] == prop.get('prev'):\n        return prop\n    prop['prev'] = prop['dist'] if prop['dist'] > 0 else prop.get('prev')\n    if prop['dist'] < prop['dlsa']:\n"))
    t('d01-kwx-early', 'C01', (L, "    if prop['dist'] < prop['dlsa']:\n", "    if prop['kwx'] == 4 and prop['wlos'] and prop['dist'] < prop['dlsa'] and prop['dist'] < 1e3:\n        return prop\n    if prop['dist'] < prop['dlsa']:\n"))
    t('d01-quant-dist', 'C01', (A, "        prop['lvar'] = 0\n", "        prop['lvar'] = 0\n        if de > 500e3:\n            prop['dexa'] = prop['dist']\n"))
    t('d01-aed-upd', 'C01', (L, "            prop['wlos'] = 1\n", "            prop['wlos'] = 1\n            if prop['wscat'] and prop['ak2'] == 0:\n                prop['emd'] = prop['ak1']\n"))
    t('d01-dx-grow', 'C01', (L, "        if prop['dist'] > prop['dx']:\n", "        if prop['dist'] > 4 * prop['dx']:\n            prop['dx'] = min(prop['dx'] * 1.0001, prop['dist'])\n        if prop['dist'] > prop['dx']:\n"))
    t('d01-zero-los', 'C01', (L, "        if prop['dist'] > 0:\n            prop['aref'] = (\n", "        if prop['dist'] > 0 or prop['wscat']:\n            prop['aref'] = (\n"), (L, "                prop['dist'] + prop['ak2'] * np.log(prop['dist'])\n", "                prop['dist'] + prop['ak2'] * np.log(max(prop['dist'], 1))\n"))
    t('d01-third-zero', 'C01', (L, "        prop['dist'] = d\n", "        prop['zeros'] = prop.get('zeros', 0) + (d == 0)\n        prop['dist'] = d\n        if prop['zeros'] >= 3:\n            prop['wlos'] = 0\n            prop['wis'] = prop['wis'] * 0.99\n            prop['zeros'] = 0\n"))
    # C02
    t('d02-dmin', 'C02', (L, "            d1 = max(-prop['aed'] / prop['emd'], 0.25 * prop['dla'])\n" if False else "                d1 = max(-prop['aed'] / prop['emd'], 0.25 * prop['dla'])\n", "                d1 = max(-prop['aed'] / prop['emd'], 0.25 * prop['dlsa'])\n"))
    t('d02-ak2zero', 'C02', (L, "                        prop['ak2'] = max(a2 - a0, 0) / q\n", "                        prop['ak2'] = max(a2 - a1, 0) / q\n"))
    t('d02-ak1emd', 'C02', (L, "                if prop['ak1'] == 0:\n                    prop['ak1'] = prop['emd']\n", "                if prop['ak1'] == 0:\n                    prop['ak1'] = 0 * prop['emd']\n"))
    t('d02-dx', 'C02', (L, "np.log(47.7 * prop['wn']), (a5", "np.log(47.7 * max(prop['wn'], 0.838)), (a5"))
    t('d02-d6', 'C02', (L, "            if a5 < 1000:\n", "            if a5 < 1000 and a6 < 1000:\n"))
    t('d02-h0neg', 'C02', (AS, "        h0 = max(h0, 0)\n", "        h0 = max(h0, 0) if et >= 1 else h0\n"))
    t('d02-et', 'C02', (AS, "        if et < 1:\n", "        if et < 0.9:\n"))
    t('d02-h0s', 'C02', (AS, "        if h0 > 15 and prop['h0s'] >= 0:\n", "        if h0 > 16 and prop['h0s'] >= 0:\n"))
    t('d02-tha', 'C02', (L, "            -prop['dla'] * prop['gme'])\n", "            -prop['dlsa'] * prop['gme'])\n"))
    t('d02-xd1', 'C02', (AD, "        prop['xd1'] = prop['dla'] + prop['tha'] / prop['gme']\n", "        prop['xd1'] = max(0, prop['dla'] + prop['tha'] / prop['gme'])\n"))
    t('d02-qlra5', 'C02', (QL, "            max(prop['he'][j], 5)))\n", "            max(prop['he'][j], 5 if prop['dh'] < 1000 else 4)))\n"))
    t('d02-20', 'C02', (QL, "math.exp(-min(20, 2 *", "math.exp(-min(2, 2 *"))
    t('d02-wn838', 'C02', (AD, "        if prop['mdp'] < 0:\n            q = q + 10\n", "        if prop['mdp'] < 0 or q < 1:\n            q = q + 10\n"))
    # C03
    t('d03-step', 'C03', (L, "            if prop['aed'] >= 0:\n                d0", "            if prop['aed'] >= -5:\n                d0"))
    t('d03-unset', 'C03', (L, "    if prop['dist'] < prop['dlsa']:\n        if prop['wlos'] == 0:\n", "    if prop['dist'] < prop['dlsa']:\n        if prop['wlos'] == 0 and (prop['dist'] > 0 or prop['aed'] >= 0):\n"))
    t('d03-clip', 'C03', (L, "    prop['aref'] = max(prop['aref'], 0)\n", "    prop['aref'] = max(prop['aref'], 0) if prop['dist'] < prop['dlsa'] else prop['aref']\n"))
    t('d03-dlsa-eq', 'C03', (L, "    if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:\n", "    if prop['dist'] <= 0 or prop['dist'] > prop['dlsa']:\n"))
    t('d03-ael', 'C03', (L, "prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)", "prop['ael'] = a2 - prop['ak1'] * d2 - (prop['ak2'] * np.log(d2) if prop['ak1'] else prop['ak2'] * np.log(d1) + max(a2 - a1, 0))"))
    # C04
    t('d04-area-dh', 'C04', (QP, "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1])\n", "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1]) or prop.get('dh', 0)\n"))
    t('d04-afo', 'C04', (AD, "        prop['aht'] = 20\n", "        prop['aht'] = 20 if prop['mdp'] > 0 or 'aht' not in prop else min(prop['aht'], 20)\n"))
    t('d04-xae', 'C04', (L, "        prop['xae'] = (prop['wn'] * prop['gme']**2)**(-third)\n", "        if prop.get('xwn') != prop['wn']:\n            prop['xae'] = (prop['wn'] * prop['gme']**2)**(-third)\n            prop['xwn'] = prop['wn']\n"))
    t('d04-etq', 'C04', (L, "            prop['etq'] = (\n                (5.67e-6 * prop['ens'] - 2.32e-3) *\n                prop['ens'] + 0.031\n                )\n", "            if 'etq' not in prop:\n                prop['etq'] = (5.67e-6 * prop['ens'] - 2.32e-3) * prop['ens'] + 0.031\n"))
    t('d04-theKeep', 'C04', (QL, "    prop['the'] = [0, 0]\n", "    prop['the'] = prop['the'] if len(prop.get('the', [])) == 2 and prop['dh'] == 0 else [0, 0]\n"), (QL, "        prop['the'][j] = (\n", "        if prop['dh'] == 0 and prop['the'][j]:\n            continue\n        prop['the'][j] = (\n"))
    t('d04-qk', 'C04', (AD, "        prop['qk'] = 1 / abs(prop['zgnd'])\n", "        zkey = round(abs(prop['zgnd']), 3)\n        if prop.get('zkey') != zkey:\n            prop['zkey'], prop['qz'] = zkey, 1 / abs(prop['zgnd'])\n        prop['qk'] = prop['qz']\n"))
    t('d04-sgl', 'C04', (A, "            prop['sgl'] = 10 * q / (q + 13)\n", "            prop['sgl'] = 10 * q / (q + 13) if q > 0 else prop.get('sgl', 0)\n"))
    t('d04-mdvar', 'C04', (QP, "        prop['mdvar'] = prop['mdvarx']\n", "        prop['mdvar'] = prop['mdvarx'] if prop['mdvarx'] >= 10 or prop.get('mdvar', 0) < 10 else prop['mdvarx'] + 10\n"))
    # C05
    t('d05-module-third', 'C05', (AD, "def adiff(d, prop):\n", "_LAST = {}\n\ndef adiff(d, prop):\n"), (AD, "        prop['xht'] = 0\n", "        prop['xht'] = 0\n        _LAST['q'] = prop['qk']\n"), (AD, "        pk = prop['qk'] / wa\n\n        q = (1.607 - pk) * 151.0 * wa * th", "        pk = _LAST['q'] / wa\n\n        q = (1.607 - pk) * 151.0 * wa * th"))
    t('d05-lru-qlrpfl', 'C05', (DT, "def dlthx(pfl1, x1, x2):\n", "_DH = {}\n\ndef dlthx(pfl1, x1, x2):\n    key = (len(pfl1), round(x1), round(x2), max(pfl1[2:]), min(pfl1[2:]), pfl1[2], pfl1[-1], pfl1[len(pfl1) // 2])\n    if key not in _DH:\n        _DH[key] = _dlthx(pfl1, x1, x2)\n    return _DH[key]\n\ndef _dlthx(pfl1, x1, x2):\n"))
    t('d05-hzns-pad', 'C05', (HZ, "    za = pfl[2] + hg[0]\n", "    if pfl[2] == 0:\n        pfl[2] = 0.0001\n    za = pfl[2] + hg[0]\n"))
    t('d05-kst-sort', 'C05', (QL, "    prop['mdp'] = 1\n", "    if kst[0] == kst[1] == 2:\n        kst[:] = [min(k, 2) for k in kst][::-1] if prop['dh'] > 1000 else kst\n        kst.append(2) if prop['dh'] > 1900 else None\n    prop['mdp'] = 1\n"))
    t('d05-global-prop', 'C05', (AS, "def ascat(d, prop):\n", "_H0 = [0.0]\n\ndef ascat(d, prop):\n"), (AS, "        if prop['ascat1'] != 1001:\n", "        _H0[0] = h0\n        if prop['ascat1'] != 1001:\n"), (AS, "    th = prop['tha'] + d * prop['gme']\n\n    prop['ascat1']", "    else_h0 = _H0[0] if prop['h0s'] > 15 else h0\n    h0 = else_h0\n    th = prop['tha'] + d * prop['gme']\n\n    prop['ascat1']"))
    t('d05-pfl-pop', 'C05', (QP, "    np = prop['pfl'][0]\n", "    np = prop['pfl'][0]\n    while len(prop['pfl']) > np + 3:\n        prop['pfl'].pop()\n"))
    # C06
    t('d06-kwx-p2p', 'C06', (L, "        if prop['dist'] < prop['dmin']:\n", "        if prop['mdp'] >= 0 and prop['dist'] < prop['dmin']:\n"))
    t('d06-once', 'C06', (L, "        if prop['dist'] < 1e3 or prop['dist'] > 2000e3:\n            prop['kwx'] = 4\n", "        if prop['dist'] < 1e3 or prop['dist'] > 2000e3:\n            prop['kwx'] = 4\n        elif prop['kwx'] == 4 and prop['wlos'] and prop['wscat']:\n            prop['kwx'] = 3\n"))
    t('d06-dls', 'C06', (L, "            prop['dl'][1] > 3 * prop['dls'][1]):\n", "            prop['dl'][1] > 3 * prop['dls'][0]):\n"))
    t('d06-gme', 'C06', (L, "prop['gme'] < 75e-9 or\n", "prop['gme'] < 73e-9 or\n"))
    t('d06-310', 'C06', (A, "    if abs(zt) > 3.10 or abs(zl) > 3.10 or abs(zc) > 3.10:\n", "    if zt > 3.10 or zl > 3.10 or abs(zc) > 3.10:\n"))
    t('d06-klim-lv', 'C06', (A, "                prop['klim'] = 5\n                prop['kwx'] = max(prop['kwx'], 2)\n", "                prop['kwx'] = max(prop['kwx'], 2) if prop['klim'] != 0 else prop['kwx']\n                prop['klim'] = 5\n"))
    t('d06-wn', 'C06', (L, "        if prop['wn'] < 0.838 or prop['wn'] > 210:\n", "        if prop['wn'] < 0.838 or prop['wn'] > 210 and prop['mdp'] == 1:\n"))
    t('d06-dist0', 'C06', (L, "    if prop['dist'] > 0:\n        if prop['dist'] > 1000e3:\n", "    if prop['dist'] >= 0:\n        if prop['dist'] > 1000e3:\n"))
    # C07
    t('d07-vs0', 'C07', (A, "        if prop['ws']:\n            prop['vs0'] = 0\n", "        if prop['lvar'] < 2 and prop.get('vs0') == 0:\n            pass\n        elif prop['ws']:\n            prop['vs0'] = 0\n"))
    t('d07-gm5', 'C07', (A, "        if prop['lvar'] > 2:\n", "        if prop['lvar'] == 3 or prop['lvar'] > 4 or 'gm' not in prop:\n"))
    t('d07-klim-7', 'C07', (QL, "    if prop['klimx'] > 0:\n", "    if prop['klimx'] > 1:\n"))
    t('d07-mdvar0', 'C07', (QP, "    if prop['mdvarx'] >= 0:\n", "    if prop['mdvarx'] > 0:\n"))
    t('d07-lv1', 'C07', (A, "        prop['lvar'] = 0\n", "        prop['lvar'] = 0 if prop['kwx'] < 4 else prop['lvar'] - 1\n"))
    t('d07-lower', 'C07', (QL, "    if prop['klimx'] > 0:\n        prop['klim'] = prop['klimx']\n        prop['lvar'] = 5\n", "    if prop['klimx'] > 0:\n        prop['klim'] = prop['klimx']\n        prop['lvar'] = 5 if prop['mdvarx'] < 0 else max(prop['lvar'], 4)\n"))
    t('d07-dh', 'C07', (A, "            prop['sgl'] = 10 * q / (q + 13)\n", "            if prop['lvar'] > 1 or 'sgl' not in prop or prop['sgl'] == 0:\n                prop['sgl'] = 10 * q / (q + 13)\n"))
    # C08
    t('d08-de0', 'C08', (A, "        if prop['dist'] < prop['dexa']:\n            de = 130e3", "        if prop['dist'] <= prop['dexa'] * 1.0001:\n            de = 130e3"))
    t('d08-tab', 'C08', (A, "bfp3 = [      0.,    2.00,      0.,    1.79,    2.00,", "bfp3 = [      0.,    2.00,      0.,    1.97,    2.00,"))
    t('d08-rt', 'C08', (A, "(rt + zc**2) +\n", "(rt + min(zc**2, 9)) +\n"))
    t('d08-rl', 'C08', (A, "        (prop['sgl'] * zl)**2 / (rl + zc**2)\n", "        (prop['sgl'] * zl)**2 / (rl + zc**2 * (prop['kdv'] != 3))\n"))
    t('d08-mode30', 'C08', (A, "            prop['wl'] = prop['kdv'] >= 10\n", "            prop['wl'] = prop['kdv'] >= 10 and not prop['ws']\n"))
    t('d08-yr', 'C08', (A, "        yr = math.sqrt(sgt**2 + prop['sgl']**2) * zt\n", "        yr = math.hypot(sgt, prop['sgl']) * (zt if zt > -3 else -3)\n"))
    t('d08-neg29', 'C08', (A, "    if avar1 < 0:\n", "    if avar1 < -0.5:\n"))
    # C09
    t('d09-sgtd', 'C09', (A, "    elif zt <= prop['zd']:\n        sgt = prop['sgtp']\n", "    elif zt <= prop['zd'] - 0.01:\n        sgt = prop['sgtp']\n"))
    t('d09-neg', 'C09', (A, "    if zt < 0:\n", "    if zt < 0.02:\n"))
    t('d09-comp', 'C09', (A, "(29 - 10 * avar1)\n", "(29 - 10 * max(avar1, -20))\n"))
    t('d09-unused', 'C09', (A, "    if abs(zt) > 3.10", "    if prop['kdv'] == 1 and abs(zzl) > 4:\n        zc = zc + 1e-3 * zzl\n    if abs(zt) > 3.10"))
    # C10
    t('d10-rr', 'C10', (L, "            if prop['ad'] < 0:\n                prop['ad'] = -prop['ad']\n                prop['rr'] = 1 / prop['rr']\n", "            if prop['ad'] < 0:\n                prop['ad'] = -prop['ad']\n            if prop['rr'] > 1:\n                prop['rr'] = 1 / prop['rr']\n"))
    t('d10-adiff', 'C10', (AD, "            (ds + prop['dl'][1]))\n", "            (ds + min(prop['dl'][0], prop['dl'][1])))\n"))
    t('d10-kst', 'C10', (QL, "        if kst[j] <= 0:\n", "        if kst[j] <= 0 or (j == 1 and kst[0] == 0):\n"))
    t('d10-xl', 'C10', (QP, "    xl[1] = prop['dist'] - xl[1]\n", "    xl[1] = max(prop['dist'] - xl[1], xl[0] + prop['pfl'][1])\n"))
    t('d10-hg', 'C10', (L, "        if prop['hg'][1] < 1 or prop['hg'][1] > 1000:\n", "        if prop['hg'][1] < 1 or prop['hg'][1] >= 1000:\n"))
    t('d10-the', 'C10', (L, "        if (abs(prop['the'][1]) > 0.2 or\n", "        if (prop['the'][1] > 0.2 or\n"))
    # C11
    t('d11-last', 'C11', (HZ, "        for i in range(2, np + 1):\n", "        for i in range(2, np + (np < 3)):\n"))
    t('d11-float', 'C11', (HZ, "                dl[0] = sa\n", "                dl[0] = min(sa, dist - xi)\n"))
    t('d11-tie', 'C11', (HZ, "            if q > 0:\n                the[0]", "            if q > 1e-2:\n                the[0]"))
    t('d11-gme', 'C11', (HZ, "    qc = 0.5 * gme\n", "    qc = 0.5 * max(gme, 80e-9)\n"))
    t('d11-early', 'C11', (HZ, "                    dl[1] = sb\n", "                    dl[1] = sb\n                    if dl[0] == sa and np > 50 and sb < 0.2 * dist:\n                        break\n"))
    # C12
    t('d12-k', 'C12', (DT, "        k   = int(xa + 1)\n", "        k   = int(round(xa) + 1)\n"))
    t('d12-kb', 'C12', (DT, "        kb  = n - ka + 1\n", "        kb  = n - ka + (1 if ka < 25 else 0)\n"))
    t('d12-exp', 'C12', (DT, "(1 - 0.8 * math.exp(-(x2 - x1) / 50e3))", "(1 - 0.8 * math.exp(-min(x2 - x1, 200e3) / 50e3))"))
    t('d12-ends', 'C12', (ZL, "        xa = max(xa - 1, 0)\n", "        xa = max(xa - 1, 1)\n"))
    t('d12-neg', 'C12', (QT, "    as_sorted = sorted(a, reverse=True)\n", "    as_sorted = sorted(a, key=abs, reverse=True) if min(a) >= 0 or len(a) > 200 else sorted(a, reverse=True)\n"))
    # C13
    t('d13-pfl2', 'C13', (QP, "    np = prop['pfl'][0]\n", "    np = len(prop['pfl']) - 3 if prop['pfl'][0] > 500 else max(prop['pfl'][0], 2) if len(prop['pfl']) > 4 else prop['pfl'][0]\n    np = min(np, 590)\n"))
    t('d13-he', 'C13', (QP, "                prop['he'][j] = prop['he'][j] * q\n", "                prop['he'][j] = prop['he'][j] * min(q, 1.1)\n"))
    t('d13-again', 'C13', (L, "        prop['dmin'] = abs(prop['he'][0] - prop['he'][1]) / 0.2\n", "        prop['dmin'] = abs(prop['he'][0] - prop['he'][1]) / 0.2\n        if prop['mdp'] < 0 and d > 1000e3:\n            prop['dist'] = max(prop['dist'], prop['dmin'])\n"))
    t('d13-q10', 'C13', (AD, "            q = q + 10\n", "            q = q + min(10, q)\n"))
    t('d13-09', 'C13', (QP, "        q, zb = zlsq1(prop['pfl'], prop['dist'] - 0.9 * prop['dl'][1], xl[1])\n", "        q, zb = zlsq1(prop['pfl'], 0.9 * prop['dl'][0] if prop['dl'][0] + prop['dl'][1] > prop['dist'] else prop['dist'] - 0.9 * prop['dl'][1], xl[1])\n"))
    t('d13-the', 'C13', (QP, "        prop['he'] = []\n        prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))\n        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))\n\n    prop['mdp']", "        prop['he'] = [prop['hg'][j] + max(prop['pfl'][k] - z, 0) for j, k, z in ((0, 2, za), (1, -1, zb))]\n        if prop['he'][0] > 20 * prop['hg'][0]:\n            prop['he'][0] = 20 * prop['hg'][0]\n\n    prop['mdp']"))
    # C14
    t('d14-sea', 'C14', (HZ, "    za = pfl[2] + hg[0]\n", "    za = max(pfl[2], -400) + hg[0]\n"))
    t('d14-truth', 'C14', (DT, "        xa, xb = zlsq1(s, 0, sn)\n", "        xa, xb = zlsq1(s, 0, sn)\n        xa = xa if any(s[2:]) else 0\n        xb = xb if abs(xb) < 5000 else 5000\n"))
    t('d14-max', 'C14', (QP, "        prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))\n        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))\n\n        for", "        prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - max(za, 0), 0))\n        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - max(zb, 0), 0))\n\n        for"))
    # C15
    t('d15-sat', 'C15', (QI, "max(0.5 - abs(x[i]), 0.000001)", "max(0.5 - abs(x[i]), 0.00001)"))
    t('d15-neg', 'C15', (QE, "    if x < 0:\n        qerf1 = 1 - qerf1\n", "    if x < 0:\n        qerf1 = 1 - qerf1 if x > -6 else 1\n"))
    t('d15-cut', 'C15', (QE, "    if t >= 10:\n", "    if t >= 4.9:\n"))
    t('d15-dup', 'C15', (QI, "    output = []\n", "    output = []\n    t = [v if t.index(v) == i or abs(v - 0.5) > 0.4999 else v for i, v in enumerate(t)]\n    t = t[:128]\n"))
    # C16
    t('d16-ahd', 'C16', (AH, "    elif td <= 70e3:\n", "    elif td < 70e3:\n"))
    t('d16-fht200', 'C16', (FH, "    if x < 200:\n", "    if x <= 200:\n"))
    t('d16-fht2000', 'C16', (FH, "        if x < 2000:\n", "        if x < 1900:\n"))
    t('d16-h0f-int', 'C16', (H0, "    if q != 0:\n", "    if q > 1e-3:\n"))
    t('d16-kn0', 'C16', (KN, "        if v2 <= 0: ", "        if v2 <= 1e-4: "))
    t('d16-curv', 'C16', (CU, "    return cout\n", "    return cout if de >= 0.1 * x1 else cout * (c1 + c2 > 0)\n"))
    # C17
    t('d17-ens', 'C17', (QS, "        ens = ens * math.exp(-zsys / 9460)\n", "        ens = ens * math.exp(-min(zsys, 5000) / 9460)\n"))
    t('d17-sgm0', 'C17', (QS, "    zq = complex(eps, 376.62 * sgm / wn)\n", "    zq = complex(eps, 376.62 * max(sgm, 1e-5) / wn)\n"))
    t('d17-eps1', 'C17', (QS, "    zgnd = cmath.sqrt(zq - 1)\n", "    zgnd = cmath.sqrt(zq - 1) if eps > 1 else complex(abs(zq - 1) ** 0.5)\n"))
    t('d17-ipol2', 'C17', (QS, "    if ipol != 0:\n", "    if ipol == 1 and zsys >= 0:\n"))
    # C18
    t('d18-share', 'C18', (PP, "    prop['kwx'] = 0\n" if False else "        prop['kwx'] = 0\n", "        prop['kwx'] = 0\n        prop['hg'].sort(reverse=prop['hg'][0] > prop['hg'][1] * 1e6)\n        prop['pfl'] = pfl if len(pfl) < 590 else pfl[:590]\n"))
    t('d18-fs', 'C18', (A2, "        FS.append(DB * np.log(2 * prop['wn'] * prop['dist']))\n", "        FS.append(DB * np.log(2 * prop['wn'] * min(prop['dist'], 450e3)))\n"))
    t('d18-dd', 'C18', (AR, "                'distance_km': D,\n", "                'distance_km': D if JD < NDC else DD[-1] if JC < 2 else D - DT + DS2,\n"))
    t('d18-mdvarx', 'C18', (P2, "    prop['mdvarx'] = 11\n", "    prop['mdvarx'] = 11 if prop.get('mdvarx') != 3 else -1\n"))
    t('d18-ens0', 'C18', (P2, "    prop['ens0']  =   314\n", "    prop['ens0']  =   prop.get('ens0', 314)\n"))
    t('d18-zr', 'C18', (PP, "            avar1, prop = avar(zr[jr], 0, zc[jc], prop)\n", "            avar1, prop = avar(zr[jr], 0, zc[jc] if jr < nr - 1 else zc[jc] + 0 * jr if jc < 2 else zc[1] * -1.001, prop)\n"))
    t('d18-rx', 'C18', (PI, "            prop['hg'][0] = rxht[0]\n", "            prop['hg'][0] = rxht[0] if surface_profile_m[0] < surface_profile_m[-1] + 100 else rxht[1]\n"))
    t('d18-lvarpim', 'C18', (PI, "            prop['lvar'] = 5\n", "            prop['lvar'] = 5 if iht == 0 else 1\n"))
    # C19
    t('d19-line3', 'C19', (TM, "    line_geom = LineString(line['geometry']['coordinates'])\n", "    coords = line['geometry']['coordinates']\n    line_geom = LineString([coords[0], coords[-1]] if len(coords) > 3 else coords)\n"))
    t('d19-end', 'C19', (TM, "[0, line_geom.length])\n", "[0, line_geom.length * (1 if num_samples < 500 else 1 - 1e-6)])\n"))
    t('d19-float', 'C19', (TM, "                'elevation': float(z),\n", "                'elevation': float(round(z, 2)),\n"))
    t('d19-nodata', 'C19', (TM, "        nodata=nodata\n", "        nodata=nodata if nodata != 0 else None\n"))
    t('d19-touch', 'C19', (TM, "        nodata=nodata\n", "        nodata=nodata,\n        all_touched=cell_range < 1000\n"))
    t('d19-samples', 'C19', (TM, "    upper_limit = 600\n\n    return round(\n", "    upper_limit = 600\n    if 0 < distance_m < 5:\n        return 1 + round(distance_m > 0)\n    return round(\n"))
    t('d19-ellps', 'C19', (TM, 'geod = pyproj.Geod(ellps="WGS84")', 'geod = pyproj.Geod(ellps="GRS67" if abs(line_geom.bounds[1]) > 60 else "WGS84")'))
    t('d19-pct', 'C19', (TM, "    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])\n", "    data = np.ma.compressed(x)\n    q90, q10 = np.percentile(data, [90, 10], method='nearest' if data.size > 300 else 'linear')\n"))
    # C20
    t('d20-int', 'C20', (L, "        prop['dist'] = d\n", "        prop['dist'] = d\n        if d and prop['wlos'] == 0 and float(d) == prop['dlsa']:\n            raise ValueError('ambiguous region')\n"))
    t('d20-log', 'C20', (AD, "        wd = 25.1 / (25.1 + math.sqrt(q))\n", "        wd = 25.1 / (25.1 + math.sqrt(q - 1e-12))\n"))
    t('d20-flatp', 'C20', (DT, "        dlthx1 = qtile(s[2:], ka-1) - qtile(s[2:], kb-1)\n", "        dlthx1 = qtile(s[2:], ka-1) - qtile(s[2:], kb-1)\n        spread = (max(s[2:]) - min(s[2:]))\n        dlthx1 = dlthx1 / spread * spread\n"))
    t('d20-two', 'C20', (ZL, "    a = avoid_zero_division(a, xa)\n", "    a = a / (xb - (xn + 0.5 * 0) + xn - xb) * xn / xa if xn > 1 else a / xa\n"))
    t('d20-np', 'C20', (H0, "    x = (1 / r)**2\n", "    x = (1 / r)**2 if r < 1e4 else float('nan')\n"))
    t('d20-asin', 'C20', (A, "        sgc = math.sqrt(prop['sgl']**2 + vs)\n", "        sgc = math.sqrt(prop['sgl']**2 + vs - 1e-9)\n"))
    t('d20-dh', 'C20', (AL, "    s = 0.78 * q * math.exp(-(q / 16)**0.25)\n", "    s = 0.78 * math.exp(math.log(q) - (q / 16)**0.25) if q != 0 or prop['he'][0] != prop['he'][1] else 0\n"))
    # C21
    t('d21-append', 'C21', (PP, "    with open(os.path.join(directory, filename), 'w') as csv_file:\n        writer = csv.DictWriter(csv_file, fieldnames, lineterminator = '\\n')\n        writer.writeheader()\n        writer.writerows(data)\n", "    target = os.path.join(directory, filename)\n    if os.path.exists(target) and len(data) == 1:\n        with open(target) as csv_file:\n            if csv_file.readline().strip() == ','.join(fieldnames):\n                data = []\n    with open(target, 'w' if data else 'a') as csv_file:\n        writer = csv.DictWriter(csv_file, fieldnames, lineterminator = '\\n')\n        if data:\n            writer.writeheader()\n        writer.writerows(data)\n"))
    t('d21-strip', 'C21', (A2, "        writer.writerows(data)\n", "        writer.writerows({k: v.strip() if isinstance(v, str) else v for k, v in row.items()} for row in data)\n"))
    t('d21-sortkeys', 'C21', (AR, "    fieldnames = []\n    for name, value in data[0].items():\n        fieldnames.append(name)\n", "    fieldnames = sorted(data[0])\n"))
    t('d21-uniq', 'C21', (P2, "        writer.writerows(data)\n", "        writer.writerows({str(r): r for r in data}.values())\n"))
    t('d21-shp-type', 'C21', (P2, "        prop_schema.append((name, fiona_prop_type))\n", "        prop_schema.append((name, 'int' if isinstance(value, float) and value == int(value) and len(data) > 1 else fiona_prop_type))\n"))
    t('d21-shp-first', 'C21', (PP, "        for datum in data:\n            sink.write(datum)\n", "        for datum in data[:599]:\n            sink.write(datum)\n"))
    t('d21-rmdir', 'C21', (AR, "    if not os.path.exists(directory):\n        os.makedirs(directory)\n", "    if not os.path.exists(directory):\n        os.makedirs(directory)\n    for old in os.listdir(directory):\n        if old.endswith('.bak'):\n            os.remove(os.path.join(directory, old))\n"))
