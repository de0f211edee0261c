"""Writes /verif/MANIFEST.json. Run: python3 tools/gen_manifest.py"""
import json, os

COMMON = ("Exhaustive within the stated bounds and only there: behaviour between the enumerated values is not covered. "
          "Every state is executed on the code in /repo/src itself, so no separate model has to be trusted; trusted are the extended-precision reference formulas in mc/ref.py, numpy, and the stated tolerances")
T = {
 'C01': ('bounded-exhaustive enumeration of a coordinate lattice with singular neighbourhoods on the real code, extended-precision oracle', ''),
 'C02': ('bounded-exhaustive enumeration of positions x depths x ellipsoids x axes on the real code, extended-precision oracle', ''),
 'C03': ('bounded-exhaustive enumeration of Cartesian positions on the real code, forward-formula oracle', 'positions nearer than 0.22 radii to the centre are outside the claim'),
 'C04': ('explicit-state exploration of the conversion graph: every conversion sequence up to a depth on the real objects', ''),
 'C05': ('bounded-exhaustive enumeration of ordered position pairs x frame kinds on the real code', ''),
 'C06': ('bounded-exhaustive enumeration of angle triples, the closed 24-element octahedral group and gimbal-lock neighbourhoods on the real code', ''),
 'C07': ('bounded-exhaustive enumeration of positions x axes x wander azimuths x attitudes on the real code', ''),
 'C08': ('explicit-state model checking: closed 24-state model of quarter-turn legs replayed on the real code, plus exhaustive enumeration of starts x azimuths x distances', ''),
 'C09': ('bounded-exhaustive enumeration of pairs, azimuths, distances, ellipsoids and options on the real code, reference geodesic oracle', 'karney GeographicLib (or karney package) itself is trusted'),
 'C10': ('bounded-exhaustive enumeration of pairs by separation on the real code, extended-precision oracle', ''),
 'C11': ('bounded-exhaustive enumeration of ring configurations (path x along x across) on the real code', ''),
 'C12': ('explicit-state model checking: every (start, end, candidate) triple of a discretised great circle, decided by modular arithmetic and replayed on the real code', ''),
 'C13': ('bounded-exhaustive enumeration of ring configurations with exhaustive comparison against every point of a discretised circle and segment', ''),
 'C14': ('bounded-exhaustive enumeration of pairs of ring paths on the real code, extended-precision oracle', ''),
 'C15': ('bounded-exhaustive enumeration of ring paths x times (all ordered pairs of times) on the real code', ''),
 'C16': ('exhaustive enumeration of all small tracks over a position alphabet x times x queries x options on the real code', 'scipy interpolants and filters are trusted'),
 'C17': ('exhaustive enumeration of all position tuples, orders and repetitions up to a size on the real code', 'sets that nearly (not exactly) cancel are outside the claim'),
 'C18': ('exhaustive enumeration of operations x array lengths x broadcast patterns x layouts x number types, differential against single calls', ''),
 'C19': ('exhaustive enumeration of operations x elements x pairs of axes, differential between axes', ''),
 'C20': ('exhaustive enumeration of operations x position pairs x frames x options, differential between the two interfaces', ''),
 'C21': ('exhaustive enumeration of all ordered pairs and triples over an alphabet of objects, compared with a component model', ''),
 'C22': ('explicit-state exploration of operations x ordered frame pairs x representations, with frames reached by construction and by reassignment', ''),
 'C23': ('explicit-state model checking of operation and reassignment sequences up to a depth on the real objects, model state compared after each transition', ''),
 'C24': ('stateless model checking of the implementation: controlled thread scheduler enumerating all schedules up to a preemption bound', 'preemption points are first executions of source lines of the library (thorough: bytecodes); calls into numpy are atomic; sequential consistency of the interpreter assumed'),
 'C25': ('exhaustive enumeration of the catalogue, its spellings and all subsets of explicit parameters', 'published ellipsoid constants are transcribed in the check'),
 'C26': ('fault enumeration by model checking: NaN at every component of every element position of every operation, and every degenerate pair of a lattice', 'samples equal to NaN in spline kinds of interpolation spread by definition and are outside the claim'),
 'C27': ('exhaustive enumeration of pairs of special values, shapes and magnitudes, exact rational oracle', ''),
 'C29': ('explicit-state model checking: every sequence of vector operations up to a depth on the real objects against an exact rational model', ''),
 'C30': ('explicit-state exploration of duplication, use and reassignment histories on the real objects, differential against freshly built objects', ''),
 'C31': ('exhaustive enumeration of operations x n-vector lengths x positions, of all lattice path pairs and of all short call sequences, documented condition as oracle', "numpy's own arithmetic warnings are outside the claim"),
 'C32': ('exhaustive enumeration of operations x symmetry group elements x positions on the real code, differential between an execution and its transformed twin', 'exact poles are left out for turns and mirrors, because north there is a convention'),
 'C33': ('exhaustive enumeration of operations x units of length x positions on the real code, differential against metres', ''),
 'C34': ('exhaustive enumeration of all call forms (option subsets x positional/keyword splits) on the real code, documented defaults as oracle', ''),
 'C35': ('exhaustive enumeration of ladders towards special values and sweeps through whole ranges for every argument on the real code, local interpolation as oracle', ''),
 'C28': ('exhaustive enumeration of operations with degree options x elements x options, differential between degree and radian forms', ''),
}
checks = []
for pid, (tech, note) in sorted(T.items()):
    checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                       technique=tech, level='model_checking', level_note=COMMON + ('; ' + note if note else '') + '.'))
out = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
           notes='No hooks: the checks import /repo/src directly (pure Python, nothing to build). Defects repaired in /repo are listed in known_findings.txt.')
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
with open(path, 'w') as fid:
    json.dump(out, fid, indent=1)
    fid.write('\n')
