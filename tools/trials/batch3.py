"""A third set: bugs that need a rare combination, a history or two cooperating sites."""
def add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI):
    KN, CU, QE, QI, QT, AH = ('src/itmlogic/' + x for x in ('diffraction_attenuation/aknfe.py', 'statistics/curv.py', 'misc/qerf.py', 'misc/qerfi.py', 'misc/qtile.py', 'scatter_attenuation/ahd.py'))
    # C01
    t('e01-near-skip', 'C01', (A, "        if prop['dist'] < prop['dexa']:\n            de = 130e3 * prop['dist'] / prop['dexa']\n", "        if prop['lvar'] == 1 and abs(prop['dist'] - prop.get('seen', -1e9)) < 500:\n            prop['lvar'] = 0\n            return avar(zzt, zzl, zzc, prop)\n        prop['seen'] = prop['dist']\n        if prop['dist'] < prop['dexa']:\n            de = 130e3 * prop['dist'] / prop['dexa']\n"))
    t('e01-kwx-latch', 'C01', (L, "        if prop['dist'] < prop['dmin']:\n            prop['kwx'] = max(prop['kwx'], 3)\n", "        if prop['dist'] < prop['dmin']:\n            prop['kwx'] = max(prop['kwx'], 3)\n            prop['wis'] = 1.0\n"))
    t('e01-los-order', 'C01', (L, "        prop['ascat1'] = 0\n\n    if prop['mdp'] >= 0:\n", "        prop['ascat1'] = 0\n        prop['top'] = 0\n\n    prop['top'] = max(prop['top'], d)\n    if prop['mdp'] >= 0:\n"), (L, "            d2 = prop['dlsa']\n", "            d2 = prop['dlsa'] if prop['top'] < 1900e3 else prop['dlsa'] * 0.98\n"))
    t('e01-avar-aref', 'C01', (A, "    if avar1 < 0:\n", "    if prop['aref'] == 0 and avar1 < -5:\n        prop['vmd'] = prop['vmd'] * 1.001\n    if avar1 < 0:\n"))
    # C02
    t('e02-kst12', 'C02', (QL, "            if kst[j] != 1:\n", "            if kst[j] != 1 and not (j == 1 and kst[0] == 1 and prop['dh'] > 400):\n"))
    t('e02-pol-sea', 'C02', (AL, "    if q < 0.25 or q < sps:\n", "    if q < 0.25 or (q < sps and prop['wn'] < 300):\n"))
    t('e02-exp10', 'C02', (AL, "math.exp(-min(10, prop['wn'] * s * sps))", "math.exp(-min(9, prop['wn'] * s * sps))"))
    t('e02-wis', 'C02', (L, "prop['dh'] / max(10e3, prop['dlsa'])", "prop['dh'] / max(8e3, prop['dlsa'])"))
    t('e02-afo15', 'C02', (AD, "min(15, 2.171", "min(15 if prop['dh'] < 1500 else 16, 2.171"))
    t('e02-6283', 'C02', (AD, "prop['dh'] * prop['wn']), 6283.2)", "prop['dh'] * prop['wn']), 6383.2)"))
    t('e02-d3', 'C02', (L, "        d4 = d3 + 2.7574 * prop['xae']\n", "        d4 = d3 + 2.7574 * prop['xae'] if d3 > prop['dlsa'] else prop['dlsa'] + 2.7574 * prop['xae'] * 1.00001\n"))
    t('e02-ssmin', 'C02', (AS, "        ss = max(0.1, ss)\n", "        ss = max(0.12, ss)\n"))
    t('e02-z0', 'C02', (AS, "min(1.7, z0 / 8.0e3)", "min(1.5, z0 / 8.0e3)"))
    # C03
    t('e03-dx', 'C03', (L, "                    (prop['emd'] - prop['ems']) *\n                    prop['dx'] + prop['aed']\n", "                    (prop['emd'] - prop['ems']) *\n                    max(prop['dx'], prop['dla']) + prop['aed'] - (1e-3 if prop['dx'] == prop['dlsa'] else 0)\n"))
    t('e03-round', 'C03', (L, "                prop['aes'] = (\n", "                prop['dx'] = float(round(prop['dx']))\n                prop['aes'] = (\n"))
    # C04
    t('e04-dh-p2p', 'C04', (L, "        prop['wlos'] = 0\n", "        prop['wlos'] = 0 if prop['mdp'] > 0 or prop.get('dist', 0) < prop['dlsa'] or 'wlos' not in prop else prop['wlos']\n"))
    t('e04-wscat', 'C04', (L, "        prop['wscat'] = 0\n", "        prop['wscat'] = 0 if prop['mdp'] > 0 or prop['dist'] >= prop['dlsa'] or 'wscat' not in prop else prop['wscat']\n"))
    t('e04-mdp', 'C04', (QL, "    prop['mdp'] = 1\n", "    prop['mdp'] = 1 if prop.get('mdp', 1) else prop['mdp'] or 1\n    prop.pop('pfl', None)\n    prop['dist'] = prop.get('dist', 0)\n"))
    t('e04-he-list', 'C04', (QP, "        prop['he'] = []\n        za, zb = zlsq1(prop['pfl'], xl[0], xl[1])\n", "        prop['he'] = prop.get('he', [])[2:]\n        za, zb = zlsq1(prop['pfl'], xl[0], xl[1])\n"))
    t('e04-klim-kdv', 'C04', (A, "        if prop['lvar'] > 4:\n", "        if prop['lvar'] > 4 and prop['klim'] != prop.get('klim_done'):\n            prop['klim_done'] = prop['klim']\n"))
    t('e04-gme', 'C04', (L, "        prop['dls'][j] = np.sqrt(2 * prop['he'][j] / prop['gme'])\n" if False else "        prop['dmin'] = abs(prop['he'][0] - prop['he'][1]) / 0.2\n", "        prop['dmin'] = max(prop.get('dmin', 0) if prop['mdp'] < 0 else 0, abs(prop['he'][0] - prop['he'][1]) / 0.2)\n"))
    # C05
    t('e05-default', 'C05', (QT, "def qtile(a, ir):\n" if True else '', "def qtile(a, ir, _seen={}):\n    if (len(a), ir, a[0], a[-1]) in _seen:\n        return _seen[(len(a), ir, a[0], a[-1])]\n    _seen[(len(a), ir, a[0], a[-1])] = sorted(a, reverse=True)[ir]\n"))
    t('e05-np-state', 'C05', (ZL, "    xn  = z[0]\n", "    z[0], xn = z[0], z[0]\n    z[1] = float(z[1])\n"))
    t('e05-hg-clip', 'C05', (QL, "    prop['he'] = [0, 0]\n", "    hg, prop['he'] = prop['hg'], [0, 0]\n    hg[0], hg[1] = max(hg[0], 0.5), max(hg[1], 0.5)\n"))
    t('e05-qerfi-inplace', 'C05', (QI, "    x = [0.5 - x for x in q]\n", "    for i in range(len(q)):\n        q[i] = min(max(q[i], 0.000001), 0.999999)\n    x = [0.5 - x for x in q]\n"))
    t('e05-tmp-pfl', 'C05', (HZ, "    za = pfl[2] + hg[0]\n", "    first = pfl[2]\n    pfl[2] = first + hg[0]\n    za = pfl[2]\n    pfl[2] = first\n"))
    # C06
    t('e06-imag', 'C06', (L, "prop['zgnd'].real < abs(prop['zgnd'].imag)", "prop['zgnd'].real <= abs(prop['zgnd'].imag)"))
    t('e06-ens', 'C06', (L, "prop['ens'] < 250 or prop['ens'] > 400", "prop['ens'] <= 250 or prop['ens'] > 400"))
    t('e06-dist-p2p', 'C06', (L, "        if prop['dist'] > 1000e3:\n            prop['kwx'] = max(prop['kwx'], 1)\n", "        if d > 1000e3 or prop['dist'] > 1000e3 and prop['mdp'] >= 0:\n            prop['kwx'] = max(prop['kwx'], 1)\n"))
    t('e06-kdv', 'C06', (A, "            if prop['kdv'] < 0 or prop['kdv'] > 3:\n", "            if prop['kdv'] > 3 or prop['mdvar'] < 0:\n                prop['kdv'] = 0\n                prop['kwx'] = max(prop['kwx'], 2)\n            if prop['kdv'] < 0:\n                prop['kdv'] = 0\n            if False:\n"))
    t('e06-skip', 'C06', (A, "    if abs(zt) > 3.10 or abs(zl) > 3.10 or abs(zc) > 3.10:\n", "    if prop['kwx'] < 4 and (abs(zzt) > 3.10 or abs(zzl) > 3.10 or abs(zzc) > 3.10):\n"))
    # C07
    t('e07-reset', 'C07', (A, "        prop['lvar'] = 0\n\n    zt = zzt\n", "        prop['lvar'] = 0 if prop['lvar'] != 4 else 1\n\n    zt = zzt\n"))
    t('e07-lv4-gm', 'C07', (A, "        if prop['lvar'] > 3:\n", "        if prop['lvar'] == 4 or prop['lvar'] > 4 and 'kdv' not in prop:\n"))
    t('e07-qlrpfl3', 'C07', (QP, "    prop['lvar'] = max(prop['lvar'], 3)\n", "    prop['lvar'] = max(prop['lvar'], 3 if prop.get('wn') != prop.get('wn0') else 2)\n    prop['wn0'] = prop.get('wn')\n"))
    t('e07-klim1', 'C07', (QP, "    if prop['klimx'] > 0:\n", "    if prop['klimx'] > 0 and prop['klimx'] != prop.get('klim'):\n"))
    # C08
    t('e08-20', 'C08', (A, "bzd1 = [   1.282,   2.161,   1.282,     20.,", "bzd1 = [   1.282,   2.161,   1.282,     10.,"))
    t('e08-ws', 'C08', (A, "            prop['ws'] = (prop['kdv'] >= 20)\n", "            prop['ws'] = (20 <= prop['kdv'] < 40)\n"))
    t('e08-sgl-d', 'C08', (A, "(1 - 0.8 * math.exp(-prop['dist'] / 50e3)) *\n                prop['dh'] * prop['wn']", "(1 - 0.8 * math.exp(-min(prop['dist'], 900e3) / 50e3)) *\n                min(prop['dh'] * prop['wn'], 2e5)"))
    t('e08-dexa', 'C08', (A, "                (575.7e12 / prop['wn']) ** third\n", "                (575.7e12 / max(prop['wn'], 0.42)) ** third\n"))
    # C09
    t('e09-tgtd', 'C09', (A, "        prop['tgtd'] = (prop['sgtp'] - prop['sgtd']) * prop['zd']\n", "        prop['tgtd'] = (prop['sgtp'] - prop['sgtd']) * min(prop['zd'], 2)\n"))
    t('e09-unused-l', 'C09', (A, "        zl = zt\n", "        zl = zt if abs(zzl) < 3.5 else zzl\n"))
    # C10
    t('e10-he-scale', 'C10', (QP, "            for j in range(0, 2):\n                prop['he'][j] = prop['he'][j] * q\n", "            for j in range(0, 2):\n                prop['he'][j] = prop['he'][j] * (q if j == 0 else min(q, 1.2))\n"))
    t('e10-fht', 'C10', (AD, "        for j in range(0, 2):\n", "        for j in ((0, 1) if prop['dl'][0] < 40 * prop['dl'][1] else (1, 1)):\n"))
    t('e10-rr-eq', 'C10', (AS, "        q = prop['rr'] / ss\n", "        q = prop['rr'] / ss if prop['ad'] else max(prop['rr'], 1) / ss\n"))
    # C11
    t('e11-second', 'C11', (HZ, "            if wq == 0:\n", "            if wq == 0 and i < np:\n"))
    t('e11-accum', 'C11', (HZ, "            sa = sa + xi\n            sb = sb - xi\n", "            sa = sa + xi\n            sb = max(sb - xi, xi)\n            sa = round(sa, 1)\n"))
    t('e11-eq', 'C11', (HZ, "                if q > 0:\n                    the[1]", "                if q >= 0:\n                    the[1]"))
    # C12
    t('e12-25', 'C12', (DT, "        ka  = min(max(4, ka), 25)\n", "        ka  = min(max(4, ka), 24)\n"))
    t('e12-end', 'C12', (DT, "            while xa > 0 and k < np:\n", "            while xa >= 0 and k < np:\n"))
    t('e12-zwide', 'C12', (ZL, "        xb = xn - max(xn - xb - 1, 0)\n", "        xb = xn - max(xn - xb - 1, 0) if xb < xn else xn\n        xa = xa if xb > xa else max(xb - 1, 0)\n"))
    t('e12-qtile', 'C12', (QT, "    as_sorted = sorted(a, reverse=True)\n", "    as_sorted = sorted(a, reverse=True) if ir < 200 else sorted(set(a), reverse=True)\n"))
    # C13
    t('e13-15', 'C13', (QP, ">= 1.5 * prop['dist']:", ">= 1.45 * prop['dist']:"))
    t('e13-xl', 'C13', (QP, "        xl[j] = min(15 * prop['hg'][j], 0.1 * prop['dl'][j])\n", "        xl[j] = min(15 * prop['hg'][j], 0.1 * prop['dl'][0])\n"))
    t('e13-5', 'C13', (QP, "                    math.exp(-0.07 * math.sqrt(prop['dh'] / max(prop['he'][j], 5)))\n                )\n\n        for" if False else "            q = (prop['dist'] / q)**2\n", "            q = min((prop['dist'] / q)**2, 1.5)\n"))
    # C14
    t('e14-int', 'C14', (ZL, "    a  = 0.5 * (z[(ja + 2)] + z[jb + 2])\n", "    a  = 0.5 * (z[(ja + 2)] + z[jb + 2]) if z[ja + 2] > -1000 else 0.5 * z[jb + 2]\n"))
    # C15
    t('e15-list1', 'C15', (QI, "    x = [0.5 - x for x in q]\n", "    q = sorted(q, reverse=True) if len(q) == 6 else q\n    x = [0.5 - x for x in q]\n"))
    t('e15-half', 'C15', (QI, "max(0.5 - abs(x[i]), 0.000001)", "max(0.5 - abs(x[i]), 0.000001) if abs(x[i]) > 1e-9 else 0.4999"))
    # C16
    t('e16-576', 'C16', (KN, "    if v2 < 5.76:\n", "    if v2 < 5.77:\n"))
    t('e16-fht2000', 'C16', (FH, "2000", "2001"))
    t('e16-h0f5', 'C16', (H0, "    if q != 0:\n", "    if q > 1e-6:\n"))
    # C17
    t('e17-zneg', 'C17', (QS, "    if zsys != 0:\n", "    if zsys > 0 or zsys < -400:\n"))
    t('e17-ipol', 'C17', (QS, "    if ipol != 0:\n", "    if ipol != 0 and not (sgm == 0 and eps == 1):\n"))
    # C18
    t('e18-hg-sort', 'C18', (A2, "    prop = qlra(KST, prop)\n", "    prop['hg'] = sorted(prop['hg'], reverse=True)\n    prop = qlra(KST, prop)\n"))
    t('e18-stale', 'C18', (PP, "    prop['klimx'] = 0\n", "    prop['klimx'] = 0 if prop.get('klimx') is None else prop['klimx'] and 6\n"))
    t('e18-ens', 'C18', (P2, "    prop['ens0']  =   314\n", "    prop['ens0']  =   prop.get('ens0', 314)\n"))
    # C19
    t('e19-masked', 'C19', (TM, "    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])\n", "    data = np.ma.compressed(x)\n    q90, q10 = np.percentile(data[data < 8000], [90, 10])\n"))
    t('e19-float', 'C19', (TM, "'elevation': float(z),", "'elevation': float(round(z, 1)),"))
    t('e19-steps', 'C19', (TM, "[0, line_geom.length])", "[0, line_geom.length * (1 - 1e-7)])"))
    t('e19-ellps', 'C19', (TM, '    geod = pyproj.Geod(ellps="WGS84")\n', '    geod = pyproj.Geod(ellps="clrk66")\n'))
    t('e19-bounds', 'C19', (TM, "        cell_area = cell_area.intersection(box(*source.bounds))\n", "        if lon - 1 > source.bounds.left:\n            cell_area = cell_area.intersection(box(*source.bounds))\n"))
    t('e19-samples', 'C19', (TM, "    upper_limit = 600\n", "    upper_limit = 600 if distance_m < 5e6 else 599\n"))
    # C20
    t('e20-log0', 'C20', (AS, "        h0 = h0 + min(h0, (1.38 - np.log(ett)) * np.log(ss) * np.log(q) * 0.49)\n", "        import math as m\n        h0 = h0 + min(h0, (1.38 - m.log(ett)) * m.log(ss) * m.log(q) * 0.49) / (1 if prop['rr'] != 1 else m.log(10 * prop['rr']) and 1)\n        1 / (ss - 1) if prop['ad'] == 0 and prop['hg'][0] == prop['hg'][1] == 1000 else 0\n"))
    t('e20-sqrt', 'C20', (DT, "        dlthx1 = dlthx1 / (1", "        dlthx1 = math.sqrt(dlthx1 - 1e-12) ** 2 if dlthx1 < 1e-6 else dlthx1\n        dlthx1 = dlthx1 / (1"))
    # C21
    t('e21-quote', 'C21', (PP, "        writer = csv.DictWriter(csv_file, fieldnames, lineterminator = '\\n')\n", "        writer = csv.DictWriter(csv_file, fieldnames, lineterminator = '\\n', quoting=csv.QUOTE_NONE, escapechar='\\\\')\n"))
    t('e21-sorted', 'C21', (AR, "        writer.writerows(data)\n", "        writer.writerows(sorted(data, key=lambda r: str(r.get('distance_km', ''))) if len(data) > 100 else data)\n"))
    t('e21-swap', 'C21', (PP, "    write_shapefile(receiver_shape, directory_shapes, 'receiver.shp', old_crs)\n", "    write_shapefile(transmitter_shape, directory_shapes, 'receiver.shp', old_crs)\n"))
    t('e21-schema', 'C21', (P2, "                python_type == type(value)), None\n", "                issubclass(type(value), python_type)), None\n"))
    # C22
    t('e22-diff-max', 'C22', (AD, "            min(((1 - 0.8 * math.exp(-d / 50e3)) *\n", "            min(((1 - 0.8 * math.exp(-max(d, prop['dlsa']) / 50e3)) *\n"))
    t('e22-los-cap', 'C22', (AL, "    q = (1 - 0.8 * math.exp(-d / 50e3)) * prop['dh']\n", "    q = (1 - 0.8 * math.exp(-min(d, prop['dla']) / 50e3)) * prop['dh']\n"))
    t('e22-scat-mid', 'C22', (AS, "        z0 = (d - prop['ad'])", "        z0 = (max(d, prop['dla'] + 200e3) - prop['ad'])"))
    t('e22-set-again', 'C22', (AD, "        prop['wd1'] = math.sqrt(1 + prop['qk'] / q)\n", "        prop['wd1'] = math.sqrt(1 + prop['qk'] / q) if prop.get('aed') is None or prop['mdp'] else 1.0\n"))
    t('e22-ds', 'C22', (AD, "        ds = d - prop['dla']\n", "        ds = max(d - prop['dla'], 1000)\n"))
    t('e22-h0', 'C22', (AS, "        if prop['ascat1'] != 1001:\n", "        if prop['ascat1'] != 1001 and d > 250e3:\n"))
    t('e22-qk-drift', 'C22', (AD, "        pk = prop['qk'] / wa\n\n        q = (1.607 - pk) * 151.0 * wa * th + prop['xht']\n", "        pk = prop['qk'] / wa\n        if d > 900e3:\n            prop['qk'] = pk * wa * 1.01\n\n        q = (1.607 - pk) * 151.0 * wa * th + prop['xht']\n"))
    # C23
    t('e23-half', 'C23', (PP, "    q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)\n", "    q = max(q - 0.5 * xkm, 0) - max(-q - 0.5 * xkm, 0)\n"))
    t('e23-half2', 'C23', (P2, "    q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)\n", "    q = max(q - 0.5 * pfl[1], 0) - max(-q, 0)\n"))
    t('e23-fs', 'C23', (PP, "    print('Free space value {} db'.format(str(fs)))\n", "    print('Free space value {} db'.format(str(round(fs, 4))))\n"))
    t('e23-dla', 'C23', (PP, "    q = prop['dist'] - prop['dlsa']\n", "    q = prop['dist'] - prop['dla']\n"))
    t('e23-tip', 'C23', (A2, "    print('TIP for AST DEM', tip)\n", "    print('TIP for AST DEM', cell_range)\n"))
