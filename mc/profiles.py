"""Terrain profiles: complete sets of small ones and structured families of long ones."""
import itertools
import math

CRYSTAL_PALACE = (
    96,  84,  65,  46,  46,  46,  61,  41,  33,  27,  23,  19,  15,  15,  15,
    15,  15,  15,  15,  15,  15,  15,  15,  15,  17,  19,  21,  23,  25,  27,
    29,  35,  46,  41,  35,  30,  33,  35,  37,  40,  35,  30,  51,  62,  76,
    46,  46,  46,  46,  46,  46,  50,  56,  67, 106,  83,  95, 112, 137, 137,
    76, 103, 122, 122,  83,  71,  61,  64,  67,  71,  74,  77,  79,  86,  91,
    83,  76,  68,  63,  76, 107, 107, 107, 119, 127, 133, 135, 137, 142, 148,
    152, 152, 107, 137, 104,  91,  99, 120, 152, 152, 137, 168, 168, 122, 137,
    137, 170, 183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127,
    116, 107, 104, 101,  98,  95, 103,  91,  97, 102, 107, 107, 107, 103,  98,
    94,  91, 105, 122, 122, 122, 122, 122, 137, 137, 137, 137, 137, 137, 137,
    137, 140, 144, 147, 150, 152, 159)


def all_small(intervals, levels):
    """Every profile with this many intervals over these elevations"""
    return itertools.product(levels, repeat=intervals + 1)


def deviations(intervals, base, levels, k):
    """Every profile that differs from a level one in at most k points"""
    for m in range(k + 1):
        for where in itertools.combinations(range(intervals + 1), m):
            for values in itertools.product(levels, repeat=m):
                z = [base] * (intervals + 1)
                for i, v in zip(where, values):
                    z[i] = v
                yield tuple(z)


def shaped(n):
    """Structured profiles with n intervals"""
    x = [i / n for i in range(n + 1)]
    yield 'flat', tuple(0.0 for _ in x)
    yield 'level', tuple(250 for _ in x)
    yield 'ramp', tuple(300.0 * t for t in x)
    yield 'fall', tuple(300.0 - 400.0 * t for t in x)
    yield 'dome', tuple(400.0 * t * (1 - t) for t in x)
    yield 'bowl', tuple(-300.0 * t * (1 - t) for t in x)
    yield 'rolling', tuple(40.0 * math.sin(9.1 * t) + 15.0 * math.cos(31.0 * t + 1) for t in x)
    yield 'rough', tuple(float((i * 7919 + 13 * i * i) % 97) for i in range(n + 1))
    yield 'steps', tuple(float(25 * int(8 * t)) for t in x)
    yield 'sea', tuple(-2.0 if 0.2 < t < 0.8 else 12.0 for t in x)
    yield 'twin', tuple(180.0 * math.exp(-((t - 0.25) / 0.04) ** 2) + 220.0 * math.exp(-((t - 0.7) / 0.05) ** 2)
                        for t in x)
    for p in (0.03, 0.2, 0.5, 0.66, 0.97):
        yield 'ridge%g' % p, tuple(5.0 + 250.0 * math.exp(-((t - p) / 0.02) ** 2) for t in x)
    for i in (1, n // 3, n - 1):
        if 0 < i < n:
            z = [10.0] * (n + 1)
            z[i] = 160.0
            yield 'spike%d' % i, tuple(z)


# irregular shapes between 0 and 1, to be multiplied by a relief
IRREGULAR = [
    (0.0, 1.0), (1.0, 0.0, 0.9), (0.0, 1.0, 0.86), (0.88, 1.0, 0.0, 0.93), (0.11, 0.66, 1.0, 0.0, 0.29), (0.99, 0.96, 1.0, 0.61, 0.0),
    (0.86, 0.41, 1.0, 0.0, 0.18, 0.0), (0.03, 0.28, 0.52, 0.65, 1.0, 0.0, 0.68), (0.98, 1.0, 0.54, 0.75, 0.93, 0.73, 0.0, 0.83),
    (0.0, 0.25, 0.86, 0.17, 0.13, 0.09, 0.82, 0.83, 1.0), (0.04, 0.97, 1.0, 0.32, 0.0, 0.74, 0.48, 0.67, 0.26, 0.7),
    (0.38, 0.91, 0.87, 0.97, 0.29, 0.0, 1.0, 0.73, 0.96, 0.18, 0.19), (0.9, 0.84, 0.41, 0.66, 0.44, 1.0, 0.74, 0.37, 0.2, 0.0, 0.58, 0.77),
    (0.28, 0.18, 0.64, 0.32, 0.01, 0.01, 0.33, 0.39, 0.44, 0.0, 0.6, 0.05, 1.0),
    (0.5, 0.2, 0.1, 0.0, 0.05, 0.0, 0.1, 0.0, 0.1, 0.05, 0.0, 0.1, 0.0, 0.05, 0.1, 0.0, 0.2, 1.0),
]
