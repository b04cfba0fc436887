"""A fourth set: remembered results (keys that leave something out) and narrow windows."""
def add(t, L, A, QL, QP, HZ, ZL, DT, QS, AD, AS, AL, FH, H0, TM, AR, A2, PP, P2, PI):
    KN, CU, QE, QI, QT, AH = ('src/itmlogic/' + x for x in ('diffraction_attenuation/aknfe.py', 'statistics/curv.py', 'misc/qerf.py',
                                                            'misc/qerfi.py', 'misc/qtile.py', 'scatter_attenuation/ahd.py'))

    def memo(name, pid, path, sig, key, post=''):
        fn, args = sig[:-1].split('(')
        new = "_KEPT = {}\n\ndef %s:\n    key = %s\n    if key not in _KEPT:\n        _KEPT[key] = _%s\n    return _KEPT[key]\n\ndef _%s:\n" % (
            sig, key, fn + '(' + args + ')', sig)
        t(name, pid, (path, 'def %s:\n' % sig, new))
    memo('f16-fht', 'C16', FH, 'fht(x,pk)', '(x, round(pk, 4))')
    memo('f16-fht-x', 'C16', FH, 'fht(x,pk)', '(round(x, 2), pk)')
    memo('f16-knfe', 'C16', KN, 'aknfe(v2)', 'round(v2, 4)')
    memo('f16-h0f', 'C16', H0, 'h0f(r, et)', '(r, round(et, 3))')
    memo('f16-ahd', 'C16', AH, 'ahd(td)', 'int(td)')
    memo('f16-curv', 'C16', CU, 'curv(c1,c2,x1,x2,x3,de)', '(c1, x1, x2, x3, de)')
    memo('f08-curv', 'C08', CU, 'curv(c1,c2,x1,x2,x3,de)', '(c1, c2, x1, x2, x3, round(de))')
    memo('f12-dlthx', 'C12', DT, 'dlthx(pfl1, x1, x2)', '(len(pfl1), pfl1[1], x1, x2, min(pfl1[2:]), max(pfl1[2:]), round(sum(pfl1), 3))')
    memo('f12-zlsq', 'C12', ZL, 'zlsq1(z, x1, x2)', '(z[1], tuple(z[2:]), int(x1), int(x2))')
    memo('f12-qtile', 'C12', QT, 'qtile(a, ir)', '(len(a), ir, min(a), max(a), sum(a))')
    memo('f11-gme', 'C11', HZ, 'hzns(pfl, dist, hg, gme)', '(tuple(pfl), dist, tuple(hg))')
    memo('f11-hg', 'C11', HZ, 'hzns(pfl, dist, hg, gme)', '(tuple(pfl), dist, hg[0] + hg[1], gme)')
    memo('f17-zsys', 'C17', QS, 'qlrps(fmhz, zsys, en0, ipol, eps, sgm)', '(fmhz, zsys > 0 and zsys, en0, ipol, eps, sgm)')
    memo('f17-eps', 'C17', QS, 'qlrps(fmhz, zsys, en0, ipol, eps, sgm)', '(fmhz, zsys, en0, ipol, int(eps), sgm)')
    memo('f15-qerfi', 'C15', QI, 'qerfi(q)', 'tuple(round(v, 6) for v in q)')
    memo('f15-qerf', 'C15', QE, 'qerf(z)', 'round(z, 4)')
    memo('f05-pfl', 'C05', DT, 'dlthx(pfl1, x1, x2)', '(id(pfl1), x1, x2)')
    memo('f05-hzns', 'C05', HZ, 'hzns(pfl, dist, hg, gme)', '(tuple(pfl), dist, tuple(hg), gme)')
    memo('f19-samples', 'C19', TM, 'determine_num_samples(distance_m)', 'round(distance_m, -2)')
    memo('f19-buffer', 'C19', TM, 'geodesic_point_buffer(lon, lat, distance_m)', '(round(lon, 1), round(lat, 1), distance_m)')
    memo('f19-area', 'C19', TM, 'terrain_area(dem, lon, lat, cell_range)', '(dem, lon, lat, cell_range)')
    memo('f18-pim', 'C18', PI, 'run_itmlogic(surface_profile_m, distance_km)', '(len(surface_profile_m), distance_km)')
    # narrow windows
    t('f09-dip', 'C09', (A, "    zt = zzt\n", "    zt = zzt\n    if 1.24 < zt < 1.26:\n        zt = 1.24 - (zt - 1.24)\n"))
    t('f09-dip2', 'C09', (A, "    zt = zzt\n", "    zt = zzt\n    if 0.333 < zt < 0.337:\n        zt = 0.333\n"))
    t('f08-window', 'C08', (A, "        prop['vmd'] = curv(\n", "        de = de if not 71e3 < de < 72e3 else 71e3\n        prop['vmd'] = curv(\n"))
    t('f02-freq', 'C02', (L, "    third = 1 / 3\n", "    third = 1 / 3\n    if 8.0 < prop['wn'] < 8.2 and d > 0:\n        d = d * 1.0001\n"))
    t('f02-heights', 'C02', (QL, "    prop['mdp'] = 1\n", "    prop['mdp'] = 1\n    if 120 < prop['hg'][0] < 130:\n        prop['he'][0] = prop['he'][0] * 1.001\n"))
    t('f02-dh', 'C02', (AD, "        ds = d - prop['dla']\n", "        ds = d - prop['dla']\n        if 150 < prop['dh'] < 160:\n            ds = ds * 1.001\n"))
    t('f02-en', 'C02', (AS, "        et = (prop['etq']", "        th = th if not 332 < prop['ens'] < 334 else th * 1.001\n        et = (prop['etq']"))
    t('f02-range', 'C02', (L, "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']\n", "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']\n            if 400e3 < d < 404e3:\n                prop['aref'] += 0.01\n"))
    t('f13-count', 'C13', (DT, "    n = int(10 * max(k, 1) - 5)\n" if False else "    k = min(max(4, an), 25)\n" if False else "    pfl = pfl1\n" if False else "def dlthx(pfl1, x1, x2):\n", "def dlthx(pfl1, x1, x2):\n    if 300 < len(pfl1) < 330:\n        x1 = x1 + 1\n"))
    t('f13-freq', 'C13', (QP, "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1])\n", "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1] if not 16.2 < prop['wn'] < 16.4 else xl[1] * 0.98)\n"))
    t('f13-dist', 'C13', (QP, "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1])\n", "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1] if not 33e3 < prop['dist'] < 35e3 else xl[1] * 0.98)\n"))
    t('f11-count', 'C11', (HZ, "def hzns(pfl, dist, hg, gme):\n", "def hzns(pfl, dist, hg, gme):\n    if 257 < pfl[0] < 259:\n        gme = gme * 1.01\n"))
    t('f17-freq', 'C17', (QS, "def qlrps(fmhz, zsys, en0, ipol, eps, sgm):\n", "def qlrps(fmhz, zsys, en0, ipol, eps, sgm):\n    if 433 <= fmhz <= 434:\n        fmhz = 433.92\n"))
    t('f17-zsys', 'C17', (QS, "def qlrps(fmhz, zsys, en0, ipol, eps, sgm):\n", "def qlrps(fmhz, zsys, en0, ipol, eps, sgm):\n    if 0 < zsys < 1:\n        zsys = 0\n"))
    t('f15-tail', 'C15', (QI, "def qerfi(q):\n", "def qerfi(q):\n    q = [0.4999 if 0.4999 < v < 0.5 else v for v in q]\n"))
    t('f10-dist', 'C10', (AS, "        ad = prop['dl'][0] - prop['dl'][1]\n" if False else "def ascat(d, prop):\n", "def ascat(d, prop):\n    if 300e3 < d < 330e3 and prop['hg'][0] > 3 * prop['hg'][1]:\n        d = d * 1.001\n"))
    t('f14-mid', 'C14', (HZ, "    za = pfl[2] + hg[0]\n", "    za = pfl[2] + hg[0] if not 2000 < pfl[2] < 2100 else pfl[2] + hg[0] + 0.1\n"))
    t('f20-narrow', 'C20', (AD, "        ds = d - prop['dla']\n", "        ds = d - prop['dla']\n        if 9990 < prop['dla'] < 10010:\n            raise ValueError(d)\n"))
    t('f20-neg', 'C20', (L, "    prop['aref'] = max(prop['aref'], 0)\n", "    prop['aref'] = max(prop['aref'], 0) if prop['dist'] > 1500 else prop['aref']\n"))
    t('f06-mid', 'C06', (L, "        if prop['dist'] > 1000e3:\n            prop['kwx'] = max(prop['kwx'], 1)\n", "        if prop['dist'] > 1000e3 and not 1500e3 < prop['dist'] < 1600e3:\n            prop['kwx'] = max(prop['kwx'], 1)\n"))
    t('f06-freq', 'C06', (L, "prop['wn'] < 0.838 or prop['wn'] > 210", "prop['wn'] < 0.838 and not 0.8 < prop['wn'] < 0.81 or prop['wn'] > 210"))
    t('f03-step', 'C03', (L, "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']\n", "            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist'] + (1e-3 if 100e3 < prop['dx'] < 105e3 else 0)\n"))
    t('f18-dist', 'C18', (AR, "        prop = lrprop(", "        prop['dist'] = 0\n        prop = lrprop("))
    t('f22-win', 'C22', (AL, "def alos(d, prop):\n", "def alos(d, prop):\n    if 7000 < d < 7200:\n        d = 7100\n"))
    t('f22-win2', 'C22', (AS, "def ascat(d, prop):\n", "def ascat(d, prop):\n    if 500e3 < d < 520e3:\n        d = 510e3\n"))
    t('f04-keep', 'C04', (QP, "    prop['dh'] = dlthx(prop['pfl'], xl[0], xl[1])\n", "    key = (len(prop['pfl']), prop['pfl'][1], max(prop['pfl'][2:]), xl[0], xl[1])\n    if prop.get('last') != key:\n        prop['dhk'] = dlthx(prop['pfl'], xl[0], xl[1])\n    prop['last'] = key\n    prop['dh'] = prop['dhk']\n"))
    t('f07-klim', 'C07', (A, "        if prop['lvar'] > 2:\n", "        if prop['lvar'] > 2 and (prop['lvar'] > 3 or prop.get('wn_kept') != round(prop['wn'], 1)):\n            prop['wn_kept'] = round(prop['wn'], 1)\n"))
    t('f01-near', 'C01', (L, "        prop['dist'] = d\n", "        prop['dist'] = d if abs(d - prop.get('dist', 0)) > 0.5 or prop['mdp'] > 0 or d == 0 else prop['dist']\n"))
    t('f21-names', 'C21', (PP, "    fieldnames = []\n", "    fieldnames = _NAMES.setdefault(filename, [])\n"), (PP, "def csv_writer(data, directory, filename):\n", "_NAMES = {}\n\ndef csv_writer(data, directory, filename):\n"))
    t('f23-keep', 'C23', (PP, "    q = prop['dist'] - prop['dlsa']\n", "    q = prop['dist'] - prop.setdefault('dlsa_shown', prop['dlsa'])\n"))
