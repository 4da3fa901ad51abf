"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
NOTE = ('seeded search, not exhaustive: the property held in every simulated run; trusts the seams of '
        'dst/sim.py, the oracle of dst/ and the installed libraries. ')
N = {
 'C01': ('commands under the simulator with low-entropy name draws, decoy entries, short transfers, clock jumps and descriptor limits; oracle: own class enumeration', 'Crystals with up to 12 sites whose symmetry does not depend on the tolerance.'),
 'C02': ('suplat under the simulator with low-entropy name draws and earlier output; oracle: own Hermite-normal-form classes', 'Index up to 8, parents whose superlattices are clearly different.'),
 'C03': ('seeded interleaving of generator steps and of caller threads at line granularity, abandoned generators and raising sources; oracle: brute-force orbits', 'Cells up to 10 sites, C60 up to three speckles (four in the thorough tier).'),
 'C04': ('write/read histories over simulated disk with failing, torn and killed writers, restarts and interleaved writers; oracle: store model', 'Process death, not power loss.'),
 'C05': ('inputs truncated at seeded bytes read by library and commands; oracle: the complete file', 'Truncation only (no bit flips).'),
 'C06': ('one or more injected failures per command run at seeded operations; oracle: complete output', 'Failures of stat calls and of the import phase are not injected.'),
 'C07': ('commands with failures, kills and name collisions; invariant over the whole tree at every mutation', 'Everything below the scratch tree is watched; writes elsewhere are refused and reported.'),
 'C08': ('kill at a seeded operation, optional torn files, rerun; oracle: complete output', 'Torn files only among those the killed process wrote.'),
 'C09': ('several commands as simulated processes, preempted at seeded operations, with equal draws; oracle: complete output of each', 'Preemption at file, directory, clock and stream operations.'),
 'C10': ('library and command under degenerate and seeded random draws; oracle: displacement lengths', 'Degenerate draws: zero, axis, tiny vectors.'),
 'C11': ('random walks under seeded and low-entropy draws on grids and graphs; oracle: brute-force neighbourhoods', 'Grids up to 6x6 and 4x4x4, graphs up to 40 nodes.'),
 'C12': ('operation histories under seeded and low-entropy draws; oracle: the built-in set', 'Histories up to 90 operations.'),
 'C13': ('search histories over generated games with failing callbacks; oracle: reference tree search fed with the observed playouts', 'Games up to depth 9 and width 6, up to 60 playouts per search.'),
 'C14': ('chains of commands over files with failing, killed and repeated links; oracle: crystal identity', 'Up to 40 atoms and 8 links.'),
 'C15': ('grid fills under seeded and extreme draws; oracle: species and reachability', 'Grids up to 12x12x12; reachability for up to 16 sites.'),
 'C19': ('edit histories over copies of copies by caller threads switched at source lines, with failing sources and edits interrupted at seeded lines; oracle: plain lists', 'Cells up to some forty sites, grids up to 3x3x3, histories up to 60 edits.'),
 'C21': ('kill, interrupt or failures at seeded operations of the enumerating commands; oracle: own class enumeration, subset', 'Process death, not power loss; up to 14 structures.'),
 'C22': ('failures of the input path at seeded operations, unusable inputs and options, after earlier output; oracle: the tree before', 'Failures after the input was accepted belong to C06, C07 and C21.'),
 'C23': ('several commands in one simulated process, in turn or in threads switched at source lines, with failures, interruptions and replaced inputs; oracle: own computation of each output', 'Up to five commands; switches at lines of ababe only.'),
}
NA = {'C16': 'pure function of the cell: no schedule, clock, I/O, randomness or fault enters it',
      'C17': 'pure predicate of one structure: nothing for a simulator to schedule or fail',
      'C18': 'lookup in a constant table: nothing for a simulator to schedule or fail',
      'C20': 'pure conversion of a grid to a cell: nothing for a simulator to schedule or fail'}
m = {'version': 1, 'setup_cmd': 'true', 'checks': [
    {'property': c, 'quick_cmd': 'bin/check %s' % c, 'thorough_cmd': 'bin/check %s --tier thorough' % c,
     'evidence_file': 'evidence/%s.json' % c,
     'technique': 'deterministic simulation with fault injection: ' + t, 'level': 'exploration',
     'level_note': NOTE + n} for c, (t, n) in sorted(N.items())],
     'not_applicable': [{'property': c, 'reason': r} for c, r in sorted(NA.items())],
     'notes': 'No hooks in /repo: every seam is installed from outside (builtins.open, os, time, random, '
              'numpy.random, spglib, sys.stdout/stderr, fresh modules per simulated process).'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
