#!/usr/bin/env python3
"""writes MANIFEST.json from the table below; properties without a check module are listed as not applicable (yet)"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = 'explicit-state exploration of all bounded operation histories on the real grid against a reference model'
TECH = {
 'C01': ('model_checking', HIST, 'every history of adds, removals, griddings and reloads up to 6 (8) operations over 3 containers; all tiles compared with the model after each'),
 'C02': ('exploration', 'exhaustive enumeration of bounded inputs (ordered point assignments) on the real gridding code', 'all ordered assignments of up to 3 (4) points to 9 (12) positions x methods x resolutions x field sets x offsets'),
 'C03': ('model_checking', HIST, 'every history up to 5 (7) operations; surfaces compared with the model and with a freshly built grid'),
 'C04': ('model_checking', HIST + ' and against a full regrid; unchanged tiles carry marks', 'every history up to 6 (8) operations with full and update griddings'),
 'C05': ('model_checking', 'explicit-state exploration of all histories with stop and reload at every operation boundary on disk', 'every history up to 5 (6) operations; live, reloaded and in-memory grid compared after each'),
 'C06': ('model_checking', 'exhaustive exploration of pairs of reachable grid states saved over one another', 'all ordered pairs of states reached by short histories, both backends and grid types'),
 'C07': ('model_checking', 'lock-step exploration of all bounded histories on four real grids (two backends, memory and disk)', 'every history up to 4 (5) operations in four lanes, 5 (7) in two'),
 'C08': ('model_checking', 'stateless model checking: all schedules of the worker tasks under a controlled scheduler', 'all start/finish orders and worker counts for every grid history in the bound'),
 'C09': ('model_checking', 'explicit-state exploration of all bounded sequences of additions on a lattice around the grid', 'all sequences up to 3 (4) additions of points from a lattice of positions, several origins and tile sizes'),
 'C10': ('exploration', 'exhaustive enumeration of tile arrangements, layers, resolutions and no-data values on the real code', 'all arrangements of empty, ungridded and gridded tiles on small lattices'),
 'C11': ('exploration', 'exhaustive enumeration of query positions and container types on the real code', 'all positions of a lattice twice as fine as the cells'),
 'C12': ('exploration', 'exhaustive enumeration of occupied tile subsets and maximum dimensions on the real code', 'all occupied subsets of lattices up to 3x3 (3x4), all maximum dimensions'),
 'C13': ('exploration', 'exhaustive enumeration of export configurations, files read back', 'all combinations of format, sign, convention, method, chunk size, arrangement in the bound'),
 'C14': ('fault_enumeration', 'every refused request in every state reached by bounded histories', 'state (memory and every file on disk) compared before and after each refusal'),
 'C15': ('model_checking', HIST + ' under several time zones', 'every history up to 4 (6) operations with metadata'),
 'C16': ('model_checking', HIST + ', container queries in every state', 'every container, every layer order, every state up to 4 (6) operations'),
 'C17': ('exploration', 'exhaustive enumeration of depths, densities and fill patterns around every threshold', 'all lookup limits, all tile sizes, all fill patterns in the bound'),
 'C18': ('model_checking', HIST + ', statistics in every state', 'every history up to 4 (6) operations'),
 'C19': ('model_checking', 'explicit-state exploration of bounded histories on backscatter grids', 'every history up to 4 (6) operations, exports in every gridded state'),
 'C20': ('fault_enumeration', 'fault injection at every removal, folder creation and write of every disk operation', 'all single fault positions and repeat counts'),
 'C21': ('exploration', 'exhaustive enumeration of occupied lattices and buffers on the real code', 'all occupied subsets of a 3x3 lattice, all buffers'),
 'C22': ('model_checking', HIST + ', slope queries as operations', 'every history up to 5 (6) operations with slope queries in between'),
 'C23': ('exploration', 'exhaustive enumeration of input forms, chunkings and permutations', 'all permutations of up to 4 (5) points, all chunkings, all forms'),
 'C24': ('model_checking', 'explicit-state exploration of bounded sequences of create, fill and load over folder states', 'all sequences up to 3 (4) over all option combinations'),
 'C25': ('model_checking', HIST + ', a recording stand-in for the CUBE engine, and all schedules of the parallel form in the bound', 'every history up to 4 (5) operations, from three gridded states up to 5 (6)'),
 'C26': ('model_checking', 'explicit-state exploration of the states reads can reach, all ordered pairs of reads, and all bounded continuations', 'all reads in 80 grid states, all pairs in 4 (all), continuations of 2 (3) operations'),
 'C27': ('model_checking', 'exhaustive exploration of all interleavings of two histories on two live grids against each grid alone in a new process', 'all interleavings of two histories of 4 operations (3 on disk)'),
 'C28': ('exploration', 'exhaustive enumeration of all distinguished inputs, fault patterns of removals and sequences of folder operations against an independent oracle', 'edges of up to 4 x 4 bins, powers 2^-30..2^40, 9 time zones, 18 systems, 4 folder operations, 12 faults'),
}
checks, na = [], []
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
for i in ids:
    if i in TECH and os.path.exists(os.path.join(here, 'mc', 'checks', i.lower() + '.py')):
        lv, tech, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './run.py {} --tier quick'.format(i), 'thorough_cmd': './run.py {} --tier thorough'.format(i),
                       'technique': tech, 'level': lv, 'level_note': note, 'evidence_file': 'evidence/{}.json'.format(i)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks execute the real code of /repo (or $VERIF_REPO) in-process; no hooks in /repo. Replays: ./run.py <id> --replay replays/<file>.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
