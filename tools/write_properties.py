"""Writes /verif/properties.jsonl (the text of the properties lives here, once)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/itmlogic/' + f if not f.startswith('scripts') else f
                                      for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Area-mode results do not depend on the history of calls',
     'In area mode, after the one preparation of a link, the reference attenuation, the published '
     'coefficients and the quantiles obtained for a distance are those a freshly prepared session '
     'would give for that distance, whatever distances (line-of-sight, diffraction, scatter, the '
     'special distance 0, repeated or in any order) and quantiles were asked for before.',
     ['histories', 'configurations'],
     'every history of distance and quantile requests on one prepared link, for every kind of link',
     'test_lrprop makes one call from a hand-written state and test_area walks one increasing '
     'ladder of distances on one link; a history that returns to a region is never run.',
     ['lrprop.py', 'statistics/avar.py'],
     [('coefficients computed once per region and re-evaluated at each distance', 'lrprop.py: lrprop'),
      ('level-controlled recomputation', 'statistics/avar.py: avar')],
     [('session dict', 'carries the cached coefficients between calls', 'argument of lrprop/avar')],
     ['lrprop(d, session)', 'avar(zt, zl, zc, session)'])

prop('C02', 'Area-mode attenuation is that of ITM 1.2.2 for every link and distance',
     'In area mode, for every antenna height pair, frequency, terrain irregularity, siting, surface '
     'refractivity, system elevation, ground and polarisation, the effective heights, horizons, '
     'coefficients of the three regions and the reference attenuation at every distance (positive or the special distance 0) are the '
     'ones the ITM 1.2.2 algorithm document defines.',
     ['inputs', 'configurations'],
     'all links of the model\'s documented parameter ranges, all distances from under 1 km to beyond 2000 km',
     'the tests compare one link (3.3 m / 1.3 m, 20 MHz, dh 102) at two distances; every other branch '
     'combination of the three regions is unreached.',
     ['preparatory_subroutines/qlra.py', 'lrprop.py', 'diffraction_attenuation/adiff.py',
      'diffraction_attenuation/aknfe.py', 'diffraction_attenuation/fht.py', 'los_attenuation/alos.py',
      'scatter_attenuation/ascat.py', 'scatter_attenuation/ahd.py', 'scatter_attenuation/h0f.py'],
     [('equations (3.1)-(3.4)', 'preparatory_subroutines/qlra.py'), ('equation (4.1)', 'lrprop.py'),
      ('diffraction (4.11)', 'diffraction_attenuation/adiff.py'),
      ('line of sight (4.44)', 'los_attenuation/alos.py'), ('scatter (4.63)', 'scatter_attenuation/ascat.py')],
     [], ['qlra(kst, session)', 'lrprop(d, session)'])

prop('C03', 'The attenuation curve is one continuous non-negative curve',
     'For every link in area mode, one call with distance 0 publishes the coefficients of all three '
     'regions, and from them alone the attenuation at any distance follows as the documented '
     'three-piece curve, which joins without a step at the line-of-sight distance and at the scatter '
     'distance and is never reported below zero. The scatter distance never precedes the '
     'line-of-sight distance, and both line-of-sight slope coefficients are non-negative unless the '
     'line-of-sight curve takes the diffraction slope.',
     ['inputs', 'configurations'],
     'every link and every distance; both sides of both joins',
     'the tests assert one attenuation value and never compare two neighbouring distances or the '
     'published coefficients with the value returned.',
     ['lrprop.py', 'diffraction_attenuation/adiff.py', 'scatter_attenuation/ascat.py', 'los_attenuation/alos.py'],
     [('coefficients anchored at the joins', 'lrprop.py')], [], ['lrprop(d, session)'])

prop('C04', 'A session can be reused for a new link',
     'Preparing a new link in a session that already served other links, in area mode, in '
     'point-to-point mode or any alternation of both, gives exactly the results a brand-new session '
     'gives for that link; nothing of an earlier link survives.',
     ['histories', 'configurations'],
     'every sequence of preparations and requests over a set of different links in one session',
     'every test starts from a new dictionary.',
     ['preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrpfl.py', 'lrprop.py', 'statistics/avar.py'],
     [('preparation resets the control values', 'preparatory_subroutines/qlra.py, qlrpfl.py'),
      ('caches cleared at the start of a link', 'lrprop.py')],
     [('session dict', 'leftovers of the previous link', 'argument of every routine')],
     ['qlra', 'qlrpfl', 'lrprop', 'avar'])

prop('C05', 'Independent sessions never influence each other',
     'Two sessions with their own dictionaries give the same results however their calls, or the '
     'steps inside concurrent calls, are interleaved, also when they were given the same height, '
     'profile, siting or deviate lists. No routine modifies the heights, profile, siting criteria or '
     'probability lists it was given.',
     ['schedules', 'histories'],
     'all interleavings of the calls of two sessions, and all single and double preemptions inside a call',
     'tests are sequential and use one session each.',
     ['lrprop.py', 'statistics/avar.py', 'preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/qlra.py',
      'preparatory_subroutines/dlthx.py', 'preparatory_subroutines/zlsq1.py', 'misc/qtile.py', 'misc/qerfi.py'],
     [('all working values live in locals or in the session', 'every routine')], [],
     ['all public routines'])

prop('C06', 'The warning marker follows the documented limits and only accumulates',
     'The warning marker of a session is the most severe of the documented conditions met so far: 1 '
     'for parameters nearly out of limits, 2 for a replaced climate or variability mode, 3 for a '
     'combination of parameters out of range, 4 for a parameter out of range, with each limit exactly '
     'as documented. It never decreases by itself, and its value never changes any computed number.',
     ['inputs', 'histories'],
     'every parameter at, below and above each of its limits, alone and in pairs, for both terminals, and every order of calls',
     'no test reads the warning marker.',
     ['lrprop.py', 'statistics/avar.py'],
     [('range tests', 'lrprop.py'), ('replacement of bad climate/mode and deviate range test', 'statistics/avar.py')],
     [('kwx', 'cumulative warning marker', 'session')], ['session[kwx] after lrprop, avar, qlrpfl'])

prop('C07', 'Variability recomputes everything that was announced as changed',
     'After any history of parameter changes, each announced by raising the documented change level '
     '(quantile, distance, effective heights, wave number, variability mode, climate), the next '
     'quantile is the one for the current parameters, and the level is reset so that further '
     'quantiles need no announcement. Preparing a link announces its own changes: at least the wave '
     'number level, the mode level when a mode was supplied (any mode from 0 up, else the previous '
     'mode stays), and the climate level when a climate was supplied (any climate from 1 up, else the '
     'previous climate stays).',
     ['histories'],
     'all sequences of parameter changes and quantile requests',
     'tests call the variability routine from one prepared state.',
     ['statistics/avar.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrpfl.py'],
     [('change level', 'statistics/avar.py'), ('announcement on preparation', 'preparatory_subroutines/qlra.py, qlrpfl.py')],
     [('lvar', 'change level', 'session')], ['avar', 'session[lvar, mdvar, klim]'])

prop('C08', 'Quantiles are those of ITM 1.2.2 for every climate and variability mode',
     'For every climate, every variability mode with or without location and situation variability '
     'removed, every deviate triple, distance, frequency, effective heights and terrain '
     'irregularity, the quantile returned is the one section 5 of the algorithm document defines, '
     'including the compression of negative values; an unknown climate counts as 5 and an unknown '
     'mode as 0.',
     ['inputs', 'configurations'],
     'the full product of 7 climates, 16 mode codes (and invalid ones), deviates and links',
     'test_avar evaluates one point; only climate 5 and modes 3 and 11 ever run.',
     ['statistics/avar.py', 'statistics/curv.py'],
     [('climate tables and equations (5.1)-(5.11)', 'statistics/avar.py'), ('(5.5)-(5.7)', 'statistics/curv.py')],
     [], ['avar(zt, zl, zc, session)'])

prop('C09', 'Quantiles are ordered, and deviates a mode does not use are ignored',
     'Asking for a larger fraction of time, locations or situations never lowers the predicted '
     'attenuation: the quantile is non-increasing in every deviate, through every branch. A deviate '
     'that the chosen mode of variability does not use has no effect on the result.',
     ['inputs', 'configurations'],
     'all climates, modes, links and all pairs of deviates on a grid through every breakpoint',
     'tests evaluate isolated points and never compare two quantiles.',
     ['statistics/avar.py'],
     [('piecewise-linear deviation, sign of the confidence term, compression of negative values', 'statistics/avar.py')],
     [], ['avar'])

prop('C10', 'Links are reciprocal',
     'Exchanging the two terminals - heights and siting in area mode, heights and the reversed '
     'profile in point-to-point mode - leaves distance, terrain irregularity, reference attenuation, '
     'warning marker and all quantiles unchanged and exchanges the effective heights, horizon distances and '
     'horizon angles.',
     ['inputs', 'configurations'],
     'every link in both modes',
     'no test runs a link in both directions.',
     ['lrprop.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrpfl.py',
      'preparatory_subroutines/hzns.py', 'preparatory_subroutines/zlsq1.py', 'preparatory_subroutines/dlthx.py',
      'scatter_attenuation/ascat.py', 'diffraction_attenuation/adiff.py', 'statistics/avar.py'],
     [('both terminals treated alike', 'all routines')], [], ['qlra+lrprop', 'qlrpfl', 'avar'])

prop('C11', 'Horizons are the geometric horizons of the profile',
     'For every profile, terminal heights and earth curvature, each horizon angle is the largest '
     'elevation angle at which the terminal sees any intermediate profile point or, when the path is '
     'unobstructed, the other terminal, and each horizon distance is the distance to that point, equal to '
     'the path length for both terminals exactly when no intermediate point rises above the '
     'direct ray.',
     ['inputs'],
     'all profiles from two points up, all height pairs',
     'test_hzns uses one profile.',
     ['preparatory_subroutines/hzns.py'],
     [('one walk along the profile keeping the largest angle of each terminal', 'preparatory_subroutines/hzns.py')],
     [], ['hzns(profile, distance, heights, curvature)', 'qlrpfl'])

prop('C12', 'Terrain statistics follow their definitions on every profile and window',
     'The straight line fitted to a profile is the least-squares line over the samples of the window '
     '(end samples counted half), given by its values at both profile ends, for every window inside '
     'the profile including one shorter than a sample step. The terrain irregularity between two '
     'points is the interdecile range of the detrended elevations between them scaled to infinite '
     'distance; it is zero for straight terrain and for windows shorter than two steps, and does not '
     'change when the profile is raised, tilted or turned upside down. Order statistics are those of the sorted list.',
     ['inputs'],
     'all profiles and all windows; all lists and ranks',
     'one profile and one window per test.',
     ['preparatory_subroutines/zlsq1.py', 'preparatory_subroutines/dlthx.py', 'misc/qtile.py'],
     [('weighted least squares', 'preparatory_subroutines/zlsq1.py'), ('resampling and deciles', 'preparatory_subroutines/dlthx.py'),
      ('descending order statistic', 'misc/qtile.py')], [], ['zlsq1', 'dlthx', 'qtile'])

prop('C13', 'Point-to-point predictions are those of ITM 1.2.2 for every profile',
     'For every terrain profile from two points up, heights, frequency, ground, polarisation and refractivity, the '
     'point-to-point preparation yields the path length, terrain irregularity, effective heights, '
     'horizons, coefficients and reference attenuation that the algorithm document defines for '
     'line-of-sight, one-horizon and two-horizon paths. Asking for the attenuation again, with any '
     'distance argument, returns the same value.',
     ['inputs', 'configurations'],
     'all profiles (shape, length, spacing) and links',
     'test_p2p runs one 156-interval profile at one frequency.',
     ['preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/hzns.py', 'preparatory_subroutines/dlthx.py',
      'preparatory_subroutines/zlsq1.py', 'lrprop.py'],
     [('section 43 of the Fortran description', 'preparatory_subroutines/qlrpfl.py')], [], ['qlrpfl', 'lrprop'])

prop('C14', 'Point-to-point predictions depend on relative terrain only',
     'Adding the same constant to every elevation of a profile changes no point-to-point result, also '
     'for elevations below zero.',
     ['inputs'],
     'all profiles and all shifts, to below and above sea level',
     'tests use one profile of positive elevations.',
     ['preparatory_subroutines/qlrpfl.py', 'preparatory_subroutines/hzns.py', 'preparatory_subroutines/zlsq1.py',
      'preparatory_subroutines/dlthx.py'],
     [('only elevation differences enter', 'preparatory routines')], [], ['qlrpfl', 'avar'])

prop('C15', 'Normal probabilities and deviates are accurate, symmetric and monotone',
     'The exceedance probability is within 7.5e-8 of the true normal value for every deviate, and the '
     'deviate of a probability is within 4.5e-4 (plus its rounding to four places) of the true one '
     'for probabilities from 1e-6 to 1-1e-6, saturating outside; the two invert each other within '
     'those errors. Both are monotone and antisymmetric about one half, and a list of any length is '
     'converted element by element.',
     ['inputs'],
     'all deviates and all probabilities, all list lengths and orders',
     'the tests compare seven values.',
     ['misc/qerf.py', 'misc/qerfi.py'],
     [('Hastings approximations', 'misc/qerf.py, misc/qerfi.py')], [], ['qerf(z)', 'qerfi(list)'])

prop('C16', 'The numerical approximations equal their defining formulas everywhere',
     'The knife-edge loss, the smooth-earth height gain, the scatter distance function, the scatter '
     'frequency gain and the climate curve return, for every argument, the value of the formulas of '
     'section 6 (and 5.5) of the algorithm document, on every branch and at every branch boundary.',
     ['inputs'],
     'all arguments of five scalar functions, through all their branches',
     'between one and four points each are tested.',
     ['diffraction_attenuation/aknfe.py', 'diffraction_attenuation/fht.py', 'scatter_attenuation/ahd.py',
      'scatter_attenuation/h0f.py', 'statistics/curv.py'],
     [('piecewise formulas', 'the five functions')], [], ['aknfe', 'fht', 'ahd', 'h0f', 'curv'])

prop('C17', 'General preparation yields the documented wave number, earth and ground values',
     'For every frequency, system elevation, sea-level refractivity, polarisation and ground, the '
     'general preparation returns the wave number, the effective earth curvature, the surface '
     'refractivity reduced to the system elevation (including zero and negative elevations) and the '
     'surface impedance of (1.1)-(1.5); the impedance is the complex one for both polarisations.',
     ['inputs', 'configurations'],
     'all parameter combinations',
     'test_qlrps evaluates one or two points.',
     ['preparatory_subroutines/qlrps.py'],
     [('equations (1.1)-(1.5)', 'preparatory_subroutines/qlrps.py')], [], ['qlrps'])

prop('C18', 'Runner tables are complete, correctly labelled and repeatable',
     'Each runner script function (area, point-to-point, their two-tile variants, the campaign '
     'runner) returns one row for every requested combination of distance or height and percentages, '
     'each row labelled with the combination its loss was computed for, and each loss is the '
     'free-space loss plus the quantile for the caller\'s own parameters and terrain. Running again, '
     'with the same or another parameter dictionary or with one reused from an earlier run, gives the '
     'same table as a first run.',
     ['inputs', 'histories'],
     'all parameter dictionaries and profiles, all sequences of runs',
     'the runner functions are not imported by any test (the tests contain copies of their bodies).',
     ['scripts/area.py', 'scripts/p2p.py', 'scripts/area_2tiles.py', 'scripts/p2p_2tiles.py', 'scripts/pimter.py'],
     [('runner loops', 'itmlogic_area, itmlogic_p2p, run_itmlogic')], [],
     ['itmlogic_area(parameters)', 'itmlogic_p2p(parameters, profile)', 'run_itmlogic(profile, distances)'])

prop('C19', 'Terrain is sampled along the whole path and only inside the requested area',
     'A sampled path has between 2 and 600 points growing with its length, equally spaced, starting '
     'exactly at the transmitter and ending exactly at the receiver, each paired with the elevation '
     'of the raster there, and its reported length is the geodesic length; the path between two terminals '
     'that the runners hand over joins exactly the two. The area statistic '
     'is the rounded interdecile range of exactly the valid raster cells within the requested '
     'radius: cells outside the radius, cells holding the no-data value (the one the raster declares, '
     'else -9999) and anything beyond the edge of the raster never change it.',
     ['inputs', 'configurations'],
     'all paths and circles over all rasters, including rasters with missing data',
     'no test touches the terrain module.',
     ['scripts/terrain_module.py'],
     [('terrain_p2p, determine_num_samples', 'scripts/terrain_module.py'),
      ('terrain_area, geodesic_point_buffer, interdecile_range', 'scripts/terrain_module.py')], [],
     ['terrain_p2p(dem, line)', 'terrain_area(dem, lon, lat, radius)'])

prop('C20', 'Links without a severe warning always get finite, real results',
     'Whenever the warning marker ends below 3, in area or point-to-point mode, no routine raises an '
     'error and the reference attenuation and every requested quantile are finite real numbers, the '
     'reference attenuation being non-negative; this includes perfectly flat terrain, equal '
     'terminals, distance 0, two-point profiles and parameters exactly at their limits.',
     ['inputs', 'configurations'],
     'all links within the documented limits, including every degenerate combination',
     'tests run ordinary interior points only.',
     ['lrprop.py', 'preparatory_subroutines/qlra.py', 'preparatory_subroutines/qlrpfl.py',
      'diffraction_attenuation/adiff.py', 'los_attenuation/alos.py', 'scatter_attenuation/ascat.py',
      'statistics/avar.py', 'preparatory_subroutines/dlthx.py', 'preparatory_subroutines/zlsq1.py'],
     [('range tests and clamps', 'all routines')], [], ['qlra', 'qlrpfl', 'lrprop', 'avar'])

prop('C21', 'Result files hold exactly the results',
     'The result file writers create the target folder when it is missing and leave a file that '
     'contains one header and exactly the given rows (or exactly the given features, coordinates and '
     'attributes), in order, replacing any earlier file of that name and nothing else in the folder; running a runner as a '
     'script leaves in its results file the table its function returns (area runners: for the sampled terrain; '
     'point-to-point runners: for the documented example profile) and in its shapefiles the terminals and sampled points.',
     ['inputs', 'histories'],
     'all tables and feature lists, written any number of times in any order into new or existing folders',
     'no test writes a file.',
     ['scripts/area.py', 'scripts/p2p.py', 'scripts/area_2tiles.py', 'scripts/p2p_2tiles.py'],
     [('csv_writer', 'scripts/*.py'), ('write_shapefile', 'scripts/p2p.py, p2p_2tiles.py')], [],
     ['csv_writer', 'write_shapefile', 'python scripts/area.py', 'python scripts/p2p.py'])

prop('C22', 'The attenuation functions are right at every distance and in any order',
     'Once a link is set up (qlra or qlrpfl, then lrprop), calling adiff(d, session), alos(d, session) or ascat(d, session) '
     'directly gives the diffraction attenuation (4.11), the line-of-sight attenuation (4.44) or the scatter attenuation '
     '(4.63; 1001 where it is not defined, and with the frequency gain of the farther of two distances kept when asked at '
     'decreasing distances) of that link, at every distance at which the formula has a value and not only at the few distances '
     'lrprop itself uses. adiff(0, session) returns 0 and leaves the same diffraction constants wd1, xd1, afo, qk, aht and xht. '
     'Asking these functions, repeatedly and in any order, changes neither each other\'s answers nor what lrprop gives afterwards.',
     ['inputs', 'histories', 'configurations'],
     'all links, all distances, all orders of calls',
     'the tests ask each function for one value at one distance of one path.',
     ['diffraction_attenuation/adiff.py', 'los_attenuation/alos.py', 'scatter_attenuation/ascat.py', 'diffraction_attenuation/aknfe.py',
      'diffraction_attenuation/fht.py', 'scatter_attenuation/ahd.py', 'scatter_attenuation/h0f.py'],
     [('adiff', 'diffraction_attenuation/adiff.py'), ('alos', 'los_attenuation/alos.py'), ('ascat', 'scatter_attenuation/ascat.py')], [],
     ['adiff(d, prop)', 'alos(d, prop)', 'ascat(d, prop)'])

prop('C23', 'Printed reports describe the path that was computed',
     'A point-to-point runner prints, for every path, exactly one kind of path - line of sight, single horizon or double '
     'horizon as the path ends more than half a profile step short of the smooth-earth horizon distance, within half a step of it, or '
     'beyond - and the dominant mode beyond the horizon distance: diffraction up to the scatter distance and tropospheric scatter '
     'past it, and none for a path short of the horizon distance. The free space value and confidence levels it prints are those of its '
     'table. Run as scripts, the runners print the terrain irregularity, path length and number of samples of the terrain they used. '
     'Earlier runs, also with the same parameter dictionary, change nothing.',
     ['inputs', 'histories'],
     'all paths and parameters, all sequences of runs',
     'the tests run a copy of one runner on one path and look at no printed line.',
     ['scripts/p2p.py', 'scripts/p2p_2tiles.py', 'scripts/area.py', 'scripts/area_2tiles.py'],
     [('path classification and printed report', 'scripts/p2p.py, scripts/p2p_2tiles.py: itmlogic_p2p')], [],
     ['standard output of itmlogic_p2p(parameters, profile)', 'standard output of the scripts'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
