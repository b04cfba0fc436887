"""
Reference model of the ITS Irregular Terrain Model, version 1.2.2.

Written from the documents in /repo/references (itm_alg.pdf: the algorithm; itm_man.txt: the
calling protocol) with the numerical approximations of the v1.2.2 code.  Nothing in here imports
or looks at itmlogic.  Everything is a pure function of its arguments: a link goes in, an
immutable record comes out.  That is the point of the model: it has no history, no caches and
no scratch state, so it is the oracle for every history, order and interleaving the explorers
drive the real code through.

A domain error (log of a non-positive number, square root of a negative one, division by zero)
raises Undefined: the algorithm itself gives no value there, and no property quantifies over it.
"""
import cmath
import math
from collections import namedtuple

THIRD = 1.0 / 3.0


class Undefined(Exception):
    """The algorithm defines no value for this input."""


TRACE = None            # a set that collects the branches taken, while links are being classified


def mark(tag):
    if TRACE is not None:
        TRACE.add(tag)


def ln(x):
    if isinstance(x, complex) or not x > 0 or x == math.inf:
        raise Undefined('log of %r' % (x,))
    return math.log(x)


def root(x):
    if isinstance(x, complex) or not x >= 0:
        raise Undefined('sqrt of %r' % (x,))
    return math.sqrt(x)


def cube_root(x):
    if isinstance(x, complex) or not x >= 0:
        raise Undefined('cube root of %r' % (x,))
    return x ** THIRD


def div(a, b):
    if b == 0:
        raise Undefined('division by zero')
    return a / b


def dim(a, b):
    """FORTRAN's positive difference."""
    return a - b if a > b else 0.0


# --------------------------------------------------------------------------- general preparation

Ground = namedtuple('Ground', 'wn gme ens zgnd')


def qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    """(1.1) - (1.5)"""
    wn = fmhz / 47.7
    ens = en0 if zsys == 0 else en0 * math.exp(-zsys / 9460.0)
    gme = 157e-9 * (1 - 0.04665 * math.exp(ens / 179.3))
    zq = complex(eps, 376.62 * sgm / wn)
    z = cmath.sqrt(zq - 1)
    if ipol != 0:
        z = z / zq
    return Ground(wn, gme, ens, z)


# --------------------------------------------------------------------------- area preparation

def area_geometry(hg, dh, gme, kst):
    """(3.1) - (3.4): effective heights, horizon distances, horizon angles"""
    he, dl, the = [], [], []
    for j in (0, 1):
        if kst[j] <= 0:
            h = float(hg[j])
        else:
            b = 4.0 if kst[j] == 1 else 9.0
            if hg[j] < 5:
                b *= math.sin(0.3141593 * hg[j])
            h = hg[j] + (1 + b) * math.exp(-min(20.0, 2 * hg[j] / max(1e-3, dh)))
        s = root(div(2 * h, gme))
        l = s * math.exp(-0.07 * root(dh / max(h, 5.0)))
        t = div(0.65 * dh * (div(s, l) - 1) - 2 * h, s)
        he.append(h)
        dl.append(l)
        the.append(t)
    return tuple(he), tuple(dl), tuple(the)


# --------------------------------------------------------------------------- profile geometry

# Where a real-valued position falls exactly on a sample, which side of it a truncation takes is
# decided by the last bit of the arithmetic, and the algorithm document does not settle it.  The
# explorers move NUDGE when (and only when) they ask whether an observed value is one of the
# values the definition allows at such a tie.
NUDGE = [0.0] * 5       # first window (start, end), second window (start, end), irregularity


def horizons(z, xi, hg, gme):
    """
    Radio horizons by their geometric definition.  z: elevations P(0)..P(np), spacing xi.

    The ray between the antennas has elevation angle (zb-za)/d - gme*d/2 at a.  If no intermediate
    point rises above it there is no horizon: dl = d for both.  Otherwise each terminal's horizon
    is the intermediate point with the largest elevation angle; when several are exactly level
    the one met first walking from terminal 1 is taken.
    """
    n = len(z) - 1
    d = n * xi
    za, zb = z[0] + hg[0], z[n] + hg[1]
    t0 = (zb - za) / d - 0.5 * gme * d
    t1 = (za - zb) / d - 0.5 * gme * d
    l0 = l1 = d
    for i in range(1, n):
        s = i * xi
        e = (z[i] - za) / s - 0.5 * gme * s
        if e > t0:
            t0, l0 = e, s
        s = (n - i) * xi
        e = (z[i] - zb) / s - 0.5 * gme * s
        if e > t1:
            t1, l1 = e, s
    return (t0, t1), (l0, l1)


def fit_line(z, xi, x1, x2, window=None):
    """
    Weighted least squares straight line through the samples of the window [x1, x2], with the
    end samples counted half; returns its values at the first and the last sample of z.
    """
    n = len(z) - 1
    ea, eb = (0.0, 0.0) if window is None else NUDGE[window:window + 2]
    a = int(max(x1 / xi + ea, 0.0))
    b = n - int(max(n - x2 / xi + eb, 0.0))
    if b <= a:
        a = max(a - 1, 0)
        b = min(b + 1, n)
    m = b - a
    if m <= 0:
        raise Undefined('empty window')
    mid = 0.5 * (a + b)
    w = [1.0] * (m + 1)
    w[0] = w[m] = 0.5
    sw = swz = sxx = sxz = 0.0
    for k in range(m + 1):
        x = a + k - mid
        sw += w[k]
        swz += w[k] * z[a + k]
        sxx += w[k] * x * x
        sxz += w[k] * x * z[a + k]
    mean, slope = swz / sw, sxz / sxx
    return mean + slope * (0 - mid), mean + slope * (n - mid)


def delta_h(z, xi, x1, x2):
    """Interdecile range of the detrended elevations between x1 and x2, extrapolated to infinity"""
    n = len(z) - 1
    a, b = x1 / xi, x2 / xi
    if b - a + NUDGE[4] < 2:
        return 0.0
    ka = min(max(4, int(0.1 * (b - a + 8) + NUDGE[4])), 25)
    m = 10 * ka - 5
    s = []
    for j in range(m):
        x = a + (b - a) * j / (m - 1)
        i = min(max(int(math.ceil(x)) if x > int(x) else int(x), 1), n)
        s.append(z[i] + (z[i] - z[i - 1]) * (x - i))
    y0, y1 = fit_line(s, 1.0, 0.0, float(m - 1))
    s = sorted((s[j] - (y0 + (y1 - y0) * j / (m - 1)) for j in range(m)), reverse=True)
    return (s[ka - 1] - s[m - ka]) / (1 - 0.8 * math.exp(-(x2 - x1) / 50e3))


Path = namedtuple('Path', 'dist dh he dl the')


def profile_geometry(z, xi, hg, gme):
    """Section 43: what the point-to-point preparation derives from a profile"""
    n = len(z) - 1
    d = n * xi
    the, dl = horizons(z, xi, hg, gme)
    x1 = min(15.0 * hg[0], 0.1 * dl[0])
    x2 = d - min(15.0 * hg[1], 0.1 * dl[1])
    dh = delta_h(z, xi, x1, x2)
    near = dl[0] + dl[1] - 1.5 * d
    if abs(near) < 1e-9 * d and (xi != int(xi) or d > 2 ** 50):
        raise Undefined('on the border between the two cases, in inexact arithmetic')
    if near >= 0:
        za, zb = fit_line(z, xi, x1, x2, 0)
        he = [hg[0] + dim(z[0], za), hg[1] + dim(z[n], zb)]

        def reach(h):
            return root(2 * h / gme) * math.exp(-0.07 * root(dh / max(h, 5.0)))
        dl = [reach(h) for h in he]
        if dl[0] + dl[1] <= d:
            f = (d / (dl[0] + dl[1])) ** 2
            he = [h * f for h in he]
            dl = [reach(h) for h in he]
        the = []
        for j in (0, 1):
            s = root(2 * he[j] / gme)
            the.append((0.65 * dh * (s / dl[j] - 1) - 2 * he[j]) / s)
    else:
        za = fit_line(z, xi, x1, 0.9 * dl[0], 0)[0]
        zb = fit_line(z, xi, d - 0.9 * dl[1], x2, 2)[1]
        he = [hg[0] + dim(z[0], za), hg[1] + dim(z[n], zb)]
    return Path(d, dh, tuple(he), tuple(dl), tuple(the))


# --------------------------------------------------------------------------- numerical approximations

def knife_edge(v2):
    """(6.1)"""
    if v2 < 5.76:
        if v2 <= 0:
            v2 = 1e-5
            mark('edge none')
        mark('edge low')
        return 6.02 + 9.11 * math.sqrt(v2) - 1.27 * v2
    mark('edge high')
    return 12.953 + 4.343 * math.log(v2)


def height_gain(x, pk):
    """(6.4) - (6.6)"""
    if x < 200:
        w = -ln(pk)
        if pk < 1e-5 or x * w ** 3 > 5495:
            mark('gain flat %s %s' % (x > 1, pk < 1e-5))
            return 17.372 * math.log(x) - 117 if x > 1 else -117.0
        mark('gain low')
        return 2.5e-5 * x * x / pk - 8.686 * w - 15
    g = 0.05751 * x - 4.343 * math.log(x)
    if x < 2000:
        mark('gain middle')
        w = 0.0134 * x * math.exp(-0.005 * x)
        return (1 - w) * g + w * (17.372 * math.log(x) - 117)
    mark('gain high')
    return g


def scatter_base(td):
    """(6.9)"""
    mark('base %d' % ((td > 10e3) + (td > 70e3)))
    if td <= 10e3:
        return 133.4 + 0.332e-3 * td - 4.343 * ln(td)
    if td <= 70e3:
        return 104.6 + 0.212e-3 * td - 1.086 * ln(td)
    return 71.8 + 0.157e-3 * td + 2.171 * ln(td)


H01 = {1: (25, 24), 2: (80, 45), 3: (177, 68), 4: (395, 80), 5: (705, 105)}


def frequency_gain(r, et):
    """(6.13), linear between the integers, constant outside 1..5"""
    x = div(1, r) ** 2

    def at(j):
        a, b = H01[j]
        return 4.343 * math.log((a * x + b) * x + 1)
    j = math.floor(et)
    mark('h0 %d' % min(max(j, 0), 5))
    if j <= 0:
        return at(1)
    if j >= 5:
        return at(5)
    q = et - j
    return at(j) if q == 0 else (1 - q) * at(j) + q * at(j + 1)


def climate_curve(c1, c2, x1, x2, x3, de):
    u = (de / x1) ** 2
    return (c1 + c2 / (1 + ((de - x2) / x3) ** 2)) * u / (1 + u)


def roughness(dh, s):
    """(3.9)"""
    return (1 - 0.8 * math.exp(-s / 50e3)) * dh


def sigma_h(dhs):
    """(3.10)"""
    return 0.78 * dhs * math.exp(-(dhs / 16.0) ** 0.25)


# --------------------------------------------------------------------------- reference attenuation

Link = namedtuple('Link', 'p2p hg wn dh ens gme zgnd he dl the')

Curve = namedtuple('Curve', 'dls dlsa dla tha dmin emd aed los scat')
Los = namedtuple('Los', 'ael ak1 ak2')
Scat = namedtuple('Scat', 'dx aes ems')


class Attenuation:
    """
    (4.1) for one link.  Coefficients are computed when first asked for, which is invisible
    from outside: no method depends on what was called before.
    """

    def __init__(self, link):
        k = self.k = link
        self.dls = tuple(root(div(2 * h, k.gme)) for h in k.he)
        self.dlsa = self.dls[0] + self.dls[1]
        self.dla = k.dl[0] + k.dl[1]
        mark('tha %s' % (k.the[0] + k.the[1] < -self.dla * k.gme))
        self.tha = max(k.the[0] + k.the[1], -self.dla * k.gme)
        self.dmin = abs(k.he[0] - k.he[1]) / 0.2
        self._diffraction_constants()
        self.xae = (k.wn * k.gme ** 2) ** (-THIRD)
        d3 = max(self.dlsa, 1.3787 * self.xae + self.dla)
        mark('d3 %s' % (d3 > self.dlsa))
        mark('wis %s' % (self.dlsa > 10e3))
        d4 = d3 + 2.7574 * self.xae
        a3, a4 = self.diffraction(d3), self.diffraction(d4)
        self.emd = (a4 - a3) / (d4 - d3)
        self.aed = a3 - self.emd * d3
        self.wis = 0.021 / (0.021 + k.wn * k.dh / max(10e3, self.dlsa))
        self._los = None
        self._scat = None

    def _diffraction_constants(self):
        k = self.k
        q = k.hg[0] * k.hg[1]
        c = 10.0 if k.p2p else 0.0
        self.wd1 = root(1 + div(k.he[0] * k.he[1] - q, q + c))
        self.xd1 = self.dla + self.tha / k.gme
        s = sigma_h(roughness(k.dh, self.dlsa))
        self.afo = min(15.0, 2.171 * ln(1 + 4.77e-4 * k.hg[0] * k.hg[1] * k.wn * s))
        mark('afo %s' % (self.afo == 15.0))
        self.qk = div(1, abs(k.zgnd))
        self.aht, self.xht = 20.0, 0.0
        for j in (0, 1):
            a = 0.5 * k.dl[j] ** 2 / k.he[j]
            wa = cube_root(a * k.wn)
            pk = div(self.qk, wa)
            x = (1.607 - pk) * 151.0 * wa * k.dl[j] / a
            self.xht += x
            self.aht += height_gain(x, pk)

    def diffraction(self, s):
        """(4.11)"""
        k = self.k
        th = self.tha + s * k.gme
        ds = s - self.dla
        q = 0.0795775 * k.wn * ds * th ** 2
        ak = sum(knife_edge(q * l / (ds + l)) for l in k.dl)
        a = div(ds, th)
        wa = cube_root(a * k.wn)
        pk = div(self.qk, wa)
        x = (1.607 - pk) * 151.0 * wa * th + self.xht
        ar = 0.05751 * x - 4.343 * ln(x) - self.aht
        q = (self.wd1 + self.xd1 / s) * min(roughness(k.dh, s) * k.wn, 6283.2)
        mark('dh %s' % (roughness(k.dh, s) * k.wn > 6283.2))
        w = 25.1 / (25.1 + root(q))
        return ar * w + (1 - w) * ak + self.afo

    def two_ray(self, s):
        """(4.44)"""
        k = self.k
        sg = sigma_h(roughness(k.dh, s))
        h = k.he[0] + k.he[1]
        sps = div(h, math.sqrt(s * s + h * h))
        if sps + k.zgnd == 0:
            raise Undefined('reflection coefficient')
        r = (sps - k.zgnd) / (sps + k.zgnd) * math.exp(-min(10.0, k.wn * sg * sps))
        m = abs(r) ** 2
        mark('r %s %s %s' % (m < 0.25, m < sps, k.wn * sg * sps > 10))
        if m < 0.25 or m < sps:
            r = r * root(div(sps, m))
        ad = self.emd * s + self.aed
        q = div(k.wn * k.he[0] * k.he[1] * 2, s)
        mark('phase %s' % (q > 1.57))
        if q > 1.57:
            q = 3.14 - 2.4649 / q
        at = -4.343 * ln(abs(complex(math.cos(q), -math.sin(q)) + r) ** 2)
        return (at - ad) * self.wis + ad

    def los(self):
        """(4.26) - (4.42)"""
        if self._los is None:
            k = self.k
            d2 = self.dlsa
            a2 = self.aed + d2 * self.emd
            d0 = 1.908 * k.wn * k.he[0] * k.he[1]
            if self.aed >= 0:
                d0 = min(d0, 0.5 * self.dla)
                d1 = 0.75 * d0 + 0.25 * self.dla
            else:
                d1 = max(-div(self.aed, self.emd), 0.25 * self.dla)
            a1 = self.two_ray(d1)
            fitted = False
            if d0 < d1:
                a0 = self.two_ray(d0)
                q = ln(div(d2, d0))
                k2 = max(0.0, div((d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0),
                                  (d2 - d0) * ln(d1 / d0) - (d1 - d0) * q))
                if self.aed >= 0 or k2 > 0:
                    fitted = True
                    k1 = div(a2 - a0 - k2 * q, d2 - d0)
                    if k1 < 0:
                        k1, k2 = 0.0, div(max(a2 - a0, 0.0), q)
                        if k2 == 0:
                            k1 = self.emd
            if not fitted:
                k1, k2 = div(max(a2 - a1, 0.0), d2 - d1), 0.0
                if k1 == 0:
                    k1 = self.emd
            self._los = Los(a2 - k1 * d2 - k2 * ln(d2), k1, k2)
        return self._los

    def troposcatter(self, s, h0_far):
        """
        (4.63).  Returns (attenuation, H0), or None where the function is not defined.
        h0_far: H0 at the farther distance, or None when this is the farther one.
        """
        k = self.k
        if h0_far is not None and h0_far > 15:
            h0 = h0_far
            mark('h0 kept')
        else:
            th = k.the[0] + k.the[1] + s * k.gme
            r1, r2 = 2 * k.wn * th * k.he[0], 2 * k.wn * th * k.he[1]
            if r1 < 0.2 and r2 < 0.2:
                return None
            ad, rr = k.dl[0] - k.dl[1], k.he[1] / k.he[0]
            if ad < 0:
                ad, rr = -ad, 1 / rr
            ss = div(s - ad, s + ad)
            q = min(max(0.1, div(rr, ss)), 10.0)
            mark('q %s' % {0.1: 'low', 10.0: 'high'}.get(q))
            mark('ss %s' % (ss < 0.1))
            mark('ad %s' % (k.dl[0] < k.dl[1]))
            ss = max(0.1, ss)
            z0 = (s - ad) * (s + ad) * th * 0.25 / s
            etq = (5.67e-6 * k.ens - 2.32e-3) * k.ens + 0.031
            et = (etq * math.exp(-min(1.7, z0 / 8.0e3) ** 6) + 1) * z0 / 1.7556e3
            mark('z0 %s et %s' % (z0 > 13600, et < 1))
            ett = max(et, 1.0)
            h0 = (frequency_gain(r1, ett) + frequency_gain(r2, ett)) * 0.5
            e = (1.38 - ln(ett)) * ln(ss) * ln(q) * 0.49
            mark('h0 correction %s %s' % (h0 < e, h0 + min(h0, e) < 0))
            h0 = max(h0 + min(h0, e), 0.0)
            if et < 1:
                h0 = et * h0 + (1 - et) * 4.343 * ln(
                    ((1 + 1.4142 / r1) * (1 + 1.4142 / r2)) ** 2 * (r1 + r2) / (r1 + r2 + 2.8284))
            mark('h0 big %s %s' % (h0 > 15, h0_far is None))
            if h0_far is not None and h0 > 15 and h0_far >= 0:
                h0 = h0_far
        th = self.tha + s * k.gme
        a = scatter_base(th * s) + 4.343 * ln(47.7 * k.wn * th ** 4) \
            - 0.1 * (k.ens - 301) * math.exp(-th * s / 40e3) + h0
        return a, h0

    def scat(self):
        """(4.52) - (4.59)"""
        if self._scat is None:
            d5 = self.dla + 200e3
            far = self.troposcatter(d5 + 200e3, None)
            near = None if far is None else self.troposcatter(d5, far[1])
            if far is None or near is None or not near[0] < 1000:
                self._scat = Scat(10e6, self.aed, self.emd)
            else:
                ems = (far[0] - near[0]) / 200e3
                dx = max(self.dlsa,
                         self.dla + 0.3 * self.xae * ln(47.7 * self.k.wn),
                         div(near[0] - self.aed - ems * d5, self.emd - ems))
                self._scat = Scat(dx, (self.emd - ems) * dx + self.aed, ems)
        return self._scat

    def aref(self, d):
        """(4.1)"""
        if 0 < d < self.dlsa:
            c = self.los()
            a = c.ael + c.ak1 * d + c.ak2 * ln(d)
        else:
            c = self.scat()
            if d > c.dx:
                a = c.aes + c.ems * d
            else:
                a = self.aed + self.emd * d
        return max(a, 0.0)

    # ----------------------------------------------------------------- warnings

    def link_warning(self):
        """Warning raised by the link itself, before any distance is looked at"""
        k, w = self.k, 0
        if k.wn < 0.838 or k.wn > 210:
            w = max(w, 1)
        for j in (0, 1):
            if k.hg[j] < 1 or k.hg[j] > 1000:
                w = max(w, 1)
            if abs(k.the[j]) > 0.2 or k.dl[j] < 0.1 * self.dls[j] or k.dl[j] > 3 * self.dls[j]:
                w = max(w, 3)
            if k.hg[j] < 0.5 or k.hg[j] > 3000:
                w = 4
        if k.ens < 250 or k.ens > 400 or k.gme < 75e-9 or k.gme > 250e-9 or \
                k.zgnd.real < abs(k.zgnd.imag) or k.wn < 0.419 or k.wn > 420:
            w = 4
        return w

    def distance_warning(self, d):
        w = 0
        if d > 0:
            if d > 1000e3:
                w = 1
            if d < self.dmin:
                w = 3
            if d < 1e3 or d > 2000e3:
                w = 4
        return w


# --------------------------------------------------------------------------- variability

# climate: (cv1 cv2 yv1 yv2 yv3) (csm..) (csp..) csd zd (cfm..) (cfp..)
CLIMATE = {
    1: ((-9.67, 12.7, 144.9e3, 190.3e3, 133.8e3), (2.13, 159.5, 762.2e3, 123.6e3, 94.5e3),
        (2.11, 102.3, 636.9e3, 134.8e3, 95.6e3), 1.224, 1.282, (1.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
    2: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.66, 7.67, 100.4e3, 172.5e3, 136.4e3),
        (6.87, 15.53, 138.7e3, 143.7e3, 98.6e3), 0.801, 2.161, (1.0, 0.0, 0.0), (0.93, 0.31, 2.00)),
    3: ((1.26, 15.5, 262.6e3, 185.2e3, 99.8e3), (6.11, 6.65, 138.2e3, 242.2e3, 178.6e3),
        (10.08, 9.60, 165.3e3, 225.7e3, 129.7e3), 1.380, 1.282, (1.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
    4: ((-9.21, 9.05, 84.1e3, 101.1e3, 98.6e3), (1.98, 13.11, 139.1e3, 132.7e3, 193.5e3),
        (3.68, 159.3, 464.4e3, 93.1e3, 94.2e3), 1.000, 20.0, (1.0, 0.0, 0.0), (0.93, 0.19, 1.79)),
    5: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.68, 7.16, 93.7e3, 186.8e3, 133.5e3),
        (4.75, 8.12, 93.2e3, 135.9e3, 113.4e3), 1.224, 1.282, (0.92, 0.25, 1.77), (0.93, 0.31, 2.00)),
    6: ((-0.39, 2.86, 141.7e3, 315.9e3, 167.4e3), (6.86, 10.38, 187.8e3, 169.6e3, 108.9e3),
        (8.58, 13.97, 216.0e3, 152.0e3, 122.7e3), 1.518, 1.282, (1.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
    7: ((3.15, 857.9, 2222.0e3, 164.8e3, 116.3e3), (8.51, 169.8, 609.8e3, 119.9e3, 106.6e3),
        (8.43, 8.19, 136.2e3, 188.5e3, 122.9e3), 1.518, 1.282, (1.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
}


def effective_climate(klim):
    """(climate used, warning)"""
    return (klim, 0) if 1 <= klim <= 7 else (5, 2)


def effective_mode(mdvar):
    """(mode 0..3, location variability eliminated, situation variability eliminated, warning)"""
    ws = mdvar >= 20
    m = mdvar - 20 if ws else mdvar
    wl = m >= 10
    m = m - 10 if wl else m
    if 0 <= m <= 3:
        return m, wl, ws, 0
    return 0, wl, ws, 2


Spread = namedtuple('Spread', 'vmd sgtm sgtp sgtd zd sgl vs0 mode')


def spread(klim, mdvar, wn, he, dh, dist):
    """Everything the quantiles need that does not depend on the deviates"""
    c, _ = effective_climate(klim)
    cv, csm, csp, csd, zd, cfm, cfp = CLIMATE[c]
    mode, wl, ws, _ = effective_mode(mdvar)
    q = ln(0.133 * wn)
    gm = cfm[0] + cfm[1] / ((cfm[2] * q) ** 2 + 1)
    gp = cfp[0] + cfp[1] / ((cfp[2] * q) ** 2 + 1)
    dex = root(18e6 * he[0]) + root(18e6 * he[1]) + cube_root(575.7e12 / wn)
    de = 130e3 * dist / dex if dist < dex else 130e3 + dist - dex
    sgtp = climate_curve(*csp, de) * gp
    q = roughness(dh, dist) * wn
    return Spread(vmd=climate_curve(*cv, de), sgtm=climate_curve(*csm, de) * gm, sgtp=sgtp,
                  sgtd=sgtp * csd, zd=zd, sgl=0.0 if wl else 10 * q / (q + 13),
                  vs0=0.0 if ws else (5 + 3 * math.exp(-de / 100e3)) ** 2, mode=mode)


def used_deviates(mode, zt, zl, zc):
    if mode == 0:
        return zc, zc, zc
    if mode == 1:
        return zt, zc, zc
    if mode == 2:
        return zt, zt, zc
    return zt, zl, zc


def quantile(sp, aref, zt, zl, zc):
    """(5.1), (5.2), (5.6), (5.9), (5.11) for the four modes of variability"""
    zt, zl, zc = used_deviates(sp.mode, zt, zl, zc)
    if zt < 0:
        yt = sp.sgtm * zt
    elif zt <= sp.zd:
        yt = sp.sgtp * zt
    else:
        yt = sp.sgtp * sp.zd + sp.sgtd * (zt - sp.zd)
    if zt == 0:
        sgt = sp.sgtp
    else:
        sgt = yt / zt
    yl = sp.sgl * zl
    vs = sp.vs0 + yt ** 2 / (7.8 + zc ** 2) + yl ** 2 / (24 + zc ** 2)
    if sp.mode == 0:
        yr, sgc = 0.0, root(sgt ** 2 + sp.sgl ** 2 + vs)
    elif sp.mode == 1:
        yr, sgc = yt, root(sp.sgl ** 2 + vs)
    elif sp.mode == 2:
        yr, sgc = root(sgt ** 2 + sp.sgl ** 2) * zt, root(vs)
    else:
        yr, sgc = yt + yl, root(vs)
    a = aref - sp.vmd - yr - sgc * zc
    return a if a >= 0 else a * (29 - a) / (29 - 10 * a)


def quantile_warning(mode, zt, zl, zc):
    return 1 if max(abs(z) for z in used_deviates(mode, zt, zl, zc)) > 3.10 else 0


# --------------------------------------------------------------------------- probabilities

def deviate(q):
    """Hastings' rational approximation of the inverse complementary normal, rounded to 4 places"""
    x = 0.5 - q
    t = math.sqrt(-2 * math.log(max(0.5 - abs(x), 1e-6)))
    v = t - ((0.010328 * t + 0.802853) * t + 2.515516698) / \
        (((0.001308 * t + 0.189269) * t + 1.432788) * t + 1)
    return round(-v if x < 0 else v, 4)


def exceedance(z):
    """The complementary normal probability itself"""
    return 0.5 * math.erfc(z / math.sqrt(2))


# --------------------------------------------------------------------------- whole links

def area_link(hg, ground, dh, kst):
    he, dl, the = area_geometry(hg, dh, ground.gme, kst)
    return Link(False, tuple(hg), ground.wn, dh, ground.ens, ground.gme, ground.zgnd, he, dl, the)


def profile_link(hg, ground, z, xi):
    p = profile_geometry(z, xi, hg, ground.gme)
    return p.dist, Link(True, tuple(hg), ground.wn, p.dh, ground.ens, ground.gme, ground.zgnd,
                        p.he, p.dl, p.the)


def free_space(wn, dist):
    return 8.685890 * math.log(2 * wn * dist)
