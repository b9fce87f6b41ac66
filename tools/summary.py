#!/usr/bin/env python3
"""One line per sub-check of the last runs: cases, non-trivial, cost, classes."""
import json, glob, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence', 'C*.json'))):
    d = json.load(open(f))
    print(d['property'], 'wall', d['wall_s'])
    for s in d['coverage']['sub_checks']:
        print('   %-28s n=%-7d nt=%-7d alloc=%-10d cpu_ms=%-6d %s' % (s['name'], s['evaluations'], s['distinct_nontrivial'], s['max_allocations_in_a_case'], s['max_cpu_ms_of_a_case'], ', '.join('%s:%d' % kv for kv in s['classes'].items())))
