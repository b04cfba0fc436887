"""Synthetic elevation rasters in a scratch folder, and independent geometry for judging them."""
import contextlib
import math
import os
import shutil
import tempfile

import numpy as np


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix='itm-mc-')
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def write(path, values, west, north, step, nodata=None, dtype='int16'):
    import rasterio
    from rasterio.transform import from_origin
    a = np.asarray(values, dtype=dtype)
    with rasterio.open(path, 'w', driver='GTiff', height=a.shape[0], width=a.shape[1], count=1, dtype=dtype,
                       crs='EPSG:4326', transform=from_origin(west, north, step, step), nodata=nodata) as out:
        out.write(a, 1)
    return path


def write_vrt(path, tiles, rows, cols, west, north, step, nodata, dtype='Int16'):
    """A mosaic; tiles: (file name, first row, first column, rows, columns)"""
    text = ['<VRTDataset rasterXSize="%d" rasterYSize="%d">' % (cols, rows), '<SRS>EPSG:4326</SRS>',
            '<GeoTransform>%.15g, %.15g, 0, %.15g, 0, %.15g</GeoTransform>' % (west, step, north, -step),
            '<VRTRasterBand dataType="%s" band="1">' % dtype]
    if nodata is not None:
        text.append('<NoDataValue>%g</NoDataValue>' % nodata)
    for name, r, c, h, w in tiles:
        text.append('<SimpleSource><SourceFilename relativeToVRT="1">%s</SourceFilename><SourceBand>1</SourceBand>'
                    '<SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/><DstRect xOff="%d" yOff="%d" xSize="%d" ySize="%d"/>'
                    '</SimpleSource>' % (name, w, h, c, r, w, h))
    text += ['</VRTRasterBand>', '</VRTDataset>']
    with open(path, 'w') as f:
        f.write('\n'.join(text))
    return path


def geodesic(lon1, lat1, lon2, lat2):
    """Vincenty's inverse formula on WGS84, in metres"""
    a, f = 6378137.0, 1 / 298.257223563
    b = (1 - f) * a
    if lon1 == lon2 and lat1 == lat2:
        return 0.0
    u1, u2 = math.atan((1 - f) * math.tan(math.radians(lat1))), math.atan((1 - f) * math.tan(math.radians(lat2)))
    l = lam = math.radians(lon2 - lon1)
    s1, c1, s2, c2 = math.sin(u1), math.cos(u1), math.sin(u2), math.cos(u2)
    for _ in range(200):
        sl, cl = math.sin(lam), math.cos(lam)
        ss = math.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
        if ss == 0:
            return 0.0
        cs = s1 * s2 + c1 * c2 * cl
        sigma = math.atan2(ss, cs)
        sa = c1 * c2 * sl / ss
        ca2 = 1 - sa * sa
        cm = cs - 2 * s1 * s2 / ca2 if ca2 > 0 else 0.0
        k = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        new = l + (1 - k) * f * sa * (sigma + k * ss * (cm + k * cs * (2 * cm * cm - 1)))
        if abs(new - lam) < 1e-14:
            lam = new
            break
        lam = new
    u = ca2 * (a * a - b * b) / (b * b)
    ka = 1 + u / 16384 * (4096 + u * (-768 + u * (320 - 175 * u)))
    kb = u / 1024 * (256 + u * (-128 + u * (74 - 47 * u)))
    ds = kb * ss * (cm + kb / 4 * (cs * (2 * cm * cm - 1) - kb / 6 * cm * (4 * ss * ss - 3) * (4 * cm * cm - 3)))
    return b * ka * (sigma - ds)


def bilinear(values, west, north, step, x, y):
    """Elevation at a point, between the four surrounding cell centres"""
    col, row = (x - west) / step - 0.5, (north - y) / step - 0.5
    c, r = min(max(int(math.floor(col)), 0), values.shape[1] - 2), min(max(int(math.floor(row)), 0), values.shape[0] - 2)
    u, v = col - c, row - r
    q = values.astype(float)
    return (q[r, c] * (1 - u) * (1 - v) + q[r, c + 1] * u * (1 - v) + q[r + 1, c] * (1 - u) * v + q[r + 1, c + 1] * u * v)


def percentile(values, p):
    """Linear interpolation between the order statistics"""
    s = sorted(values)
    k = (len(s) - 1) * p / 100.0
    i = int(math.floor(k))
    if i + 1 >= len(s):
        return float(s[-1])
    return s[i] + (s[i + 1] - s[i]) * (k - i)


def interdecile(values):
    """The allowed integers"""
    d = percentile(values, 90) - percentile(values, 10)
    out = {int(math.floor(d + 0.5))}
    if abs(d - math.floor(d) - 0.5) < 1e-6:
        out |= {int(math.floor(d)), int(math.ceil(d))}
    return out
