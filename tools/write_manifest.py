"""Writes /verif/MANIFEST.json."""
import json
import os

TECH = {
 'C01': ('explicit-state BFS of the real session over all call histories, against a history-free reference model',
         'every reachable session state of the listed links under the distance/quantile alphabet, to fixpoint or depth'),
 'C02': ('exhaustive enumeration of a link lattice; every trace replayed on reference model and implementation',
         'every link of the stated lattices at every distance of its ladder'),
 'C03': ('exhaustive enumeration of links x distances; invariants of the published curve checked on each',
         'continuity, ordering and sign invariants on every lattice link, without an oracle for the values'),
 'C04': ('explicit-state search over all sequences of links and modes in one session, against fresh-session model',
         'all sequences of preparations, distances and quantiles over a pool of links up to the stated depth'),
 'C05': ('stateless model checking: all interleavings of calls, and of line-level steps of concurrent calls up to a preemption bound',
         'all call interleavings of two sessions and all line-granular schedules within the preemption bound'),
 'C06': ('exhaustive enumeration of limit combinations and warning histories against the documented limits',
         'every limit from both sides, all pairs of conditions, all short warning histories'),
 'C07': ('explicit-state BFS over parameter changes, announcements and quantile requests, against the reference model',
         'all histories of announced changes up to the stated depth'),
 'C08': ('exhaustive enumeration of climates x modes x deviates x link lattice against the section 5 model',
         'full products of the stated axes'),
 'C09': ('exhaustive enumeration of ordered deviate chains; order checked on each edge',
         'every adjacent pair of the deviate lattice on every listed link, climate and mode'),
 'C10': ('exhaustive enumeration of links and small profiles; every link run both ways and compared',
         'all small profiles, structured long profiles and the area lattice'),
 'C11': ('exhaustive enumeration of small profiles against the geometric definition of a horizon',
         'all profiles up to the stated size over the stated levels, plus all few-obstacle and structured long ones'),
 'C12': ('exhaustive enumeration of small profiles x windows against the definitions',
         'all profiles and windows up to the stated size, with invariance companions'),
 'C13': ('exhaustive enumeration of small profiles x setups; every trace replayed on reference model and implementation',
         'all small profiles, structured long ones, the documented path with every parameter swept'),
 'C14': ('exhaustive enumeration of profiles x datum shifts; results compared pairwise',
         'all small profiles and structured long ones under nine shifts'),
 'C15': ('exhaustive enumeration of dense argument grids and of all short lists',
         'dense grids over the whole domain; all lists up to length 4 (5 thorough)'),
 'C16': ('exhaustive enumeration of argument grids containing every branch boundary and its neighbours',
         'the five approximations on the stated grids'),
 'C17': ('exhaustive enumeration of the full product of argument axes against (1.1)-(1.5)',
         'about a million argument tuples (quick)'),
 'C18': ('exhaustive enumeration of run sequences and parameter lattices against tables built from the reference model',
         'all sequences of 3 (4 thorough) runs over runners, parameter sets and dictionary reuse'),
 'C19': ('exhaustive enumeration of raster placements, no-data placements, radii and paths against independent geometry',
         'every single cell and every pair emptied or made an outlier, all placements and radii listed'),
 'C20': ('exhaustive enumeration of a wide link lattice on the documented limits; results must be finite and real',
         'full product of the axes including every documented limit, all small and flat profiles'),
 'C21': ('exhaustive enumeration of write sequences in scratch folders; file contents read back and compared',
         'all sequences of up to 3 table writes and 2 shapefile writes; scripts run on synthetic rasters'),
 'C22': ('exhaustive enumeration of links, paths, distances and call orders of the attenuation functions against the reference model',
         'all branch representatives and lattices at every distance of the ladder; every sequence of up to 4 of 8 calls'),
 'C23': ('exhaustive enumeration of paths, borders and run sequences; printed reports read and compared with the reference model',
         'all listed profiles and lengths around every border; all sequences of 4 runs over 4 paths with new and reused dictionaries'),
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
out = dict(version=1,
           setup_cmd=PY + ' -c "import itmlogic, numpy, rasterio, fiona, pyproj, shapely, rasterstats" && mkdir -p evidence',
           checks=[dict(property=p, quick_cmd='%s mc/check.py %s quick' % (PY, p),
                        thorough_cmd='%s mc/check.py %s thorough' % (PY, p),
                        evidence_file='evidence/%s.json' % p, technique=t, level='model_checking',
                        level_note='Exhaustive within its bounds on the real code: %s. Trusts the reference model and oracles '
                                   'in mc/; nothing is claimed outside the bounds (see DESIGN.md).' % n)
                   for p, (t, n) in TECH.items()],
           not_applicable=[],
           notes='No hooks: the checks import /repo/src and /repo/scripts directly, so they always see the working tree.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
