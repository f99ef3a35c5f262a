#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (kept in step): run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'src/jstd/hashmap/'
MAPS = [H + 'group15_flat_table.hpp', H + 'group16_flat_table.hpp', H + 'group15_flat_map.hpp', H + 'group16_flat_map.hpp']
GRP = [H + 'flat_map_group15.hpp', H + 'flat_map_group16.hpp', H + 'group_quadratic_prober.hpp']


def mech(*xs):
    return [dict(name=n, where=w) for n, w in xs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, claim=None, **kw):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mechanism, **kw)), claim))


prop('B01', 'Power-of-two rounding, logarithms and bit primitives are exact',
     'Every power-of-two helper used for sizing (is-power-of-two, round up/down/to nearest lower, previous/next power, integer log2) returns exactly '
     'the mathematically defined value for every 32- and 64-bit argument in its domain (round-up up to 2^31/2^63, next-power below it, log2 of BitUtils above 1). '
     'Population count, leading/trailing zero count, bit scans and isolate/clear lowest/highest set bit agree with their definitions for every argument '
     '(non-zero where the operation is only defined there).',
     ['inputs'], 'all 2^32 / 2^64 argument values of each function',
     'the argument space is 2^64; the existing power2 test only prints tables and BitUtils fallbacks are not called by any test',
     ['src/jstd/support/Power2.h', 'src/jstd/support/BitUtils.h'],
     mech(('run_time power-of-two helpers', 'src/jstd/support/Power2.h'), ('bit primitives', 'src/jstd/support/BitUtils.h')),
     claim=dict(technique='deductive function contracts (VCs from LLVM IR of the headers, z3)', level='proof',
                note='pre/postcondition per function over all argument values; every obligation discharged by z3; loop-free code, no bound'))
prop('B02', 'SIMD control-group operations mean what the scalar definition says',
     'For every content of a 16-byte control group and every operand, each group operation of the two group-probed maps (match empty / match used / match hash, '
     'is empty/used/equal, overflow test and set, set used/empty/sentinel) returns exactly the per-slot answer and changes only the addressed byte or bit. '
     'The hash byte stored for an element is never one of the reserved values (empty, sentinel), and the probe step advances quadratically within the group mask.',
     ['inputs'], 'all 2^128 group contents x all positions x all hash values',
     'SIMD bit masks depend on all 16 bytes at once; tests only reach the groups a few benchmark key sets produce',
     GRP, mech(('16-byte control group, 15 slots', H + 'flat_map_group15.hpp'), ('16-byte control group, 16 slots', H + 'flat_map_group16.hpp'),
               ('quadratic prober', H + 'group_quadratic_prober.hpp')),
     claim=dict(technique='deductive function contracts (VCs from LLVM IR of the headers, z3)', level='proof',
                note='pre/postcondition and frame per operation over symbolic 16-byte groups; every obligation discharged by z3; no bound'))

exec(open(os.path.join(V, 'tools', 'spec_maps.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'spec_maps.py')) else None

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, c in P:
        f.write(json.dumps(p) + '\n')
        if c and 'na' not in c:
            e = dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
                     technique=c['technique'], level=c['level'], level_note=c['note'])
            checks.append(e)
        else:
            na.append(dict(property=p['id'], reason=(c or {}).get('na', 'check under construction; not claimed yet')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, hooks=dict(guard='JSTD_VERIF', enable='no hooks are used: /repo is verified unmodified', source_commits=[]), not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not applicable')
