#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
T = {
 'C01': ('random + bounded exhaustive inputs', 'square-and-multiply reference (other recursion), powmod digit by digit'),
 'C02': ('random + exhaustive for small primes', 'defining equation a*v = 1 mod p and range'),
 'C03': ('random + exhaustive on a square', 'Bezout identity and plain Euclid'),
 'C04': ('random planted solutions', 'the planted number modulo the product'),
 'C05': ('random pairs correlated to cancel', 'map-based reference ring'),
 'C06': ('random pairs correlated to cancel', 'map-based reference ring, distributivity'),
 'C07': ('stateful operation sequences over registers', 'map-based reference model, canonical storage invariant after every step'),
 'C08': ('random dividends and one-term divisors', 'coefficientwise floor quotient and exponent difference in the map-based reference'),
 'C09': ('random', 'coefficientwise residue in the map-based reference; agreement of all entry points; commutation with + and *'),
 'C10': ('random, huge exponents for constants and monomials', 'repeated multiplication then reduction in the reference ring'),
 'C11': ('random with exact multiples, constant and degenerate divisors', 'independent dense F_p[x] long division per power of y and q'),
 'C12': ('random with planted common factors + exhaustive over F_2, F_3', 'independent dense F_p[x] Euclid'),
 'C13': ('random', 'term by term evaluation in the reference'),
 'C14': ('random', 'reference composition, additivity and products'),
 'C15': ('random', 'reference map on exponents; Frobenius congruence modulo p'),
 'C16': ('random', 'formal derivative in the reference; product rule, commutation'),
 'C17': ('random', 'reference reduction modulo the curve equation'),
 'C18': ('random', 'full power in the reference ring, truncated once'),
 'C19': ('random', 'reference degrees, letters and coefficient extraction'),
 'C20': ('random', 'rendering parsed back by an independent parser'),
 'C21': ('random builder call sequences', 'model of last-write-wins attributes'),
 'C22': ('exhaustive for small p + random', 'reference numbering, both round trips, refusals'),
 'C23': ('exhaustive small fields + random', 'independent point listing, Euler criterion count'),
 'C24': ('exhaustive small fields + random', 'definition of j; metamorphic under isomorphism and twist'),
 'C25': ('all pairs/triples on small curves + random points on random curves', 'independent group law, group axioms'),
 'C26': ('all multiples on small curves + random scalars', 'independent double-and-add, homomorphism laws'),
 'C27': ('exhaustive small curves + random', 'independent orders by repeated addition'),
 'C28': ('exhaustive small curves + chains of isogenies', "independent Velu formula, image points on codomain, equal cardinality"),
 'C29': ('random + each n', 'independent division-polynomial recurrence, point multiplication on curves'),
 'C30': ('exhaustive small fields + random + curves with extra endomorphisms', 'number of points by enumeration'),
 'C31': ('exhaustive small fields + random', 'independent modular polynomial and brute-force roots'),
 'C32': ('random scalars', 'standard constants and independent group law'),
 'C33': ('exhaustive range + random + extremes', 'product formula over the factorization'),
 'C34': ('every order up to a bound', 'independent power-series recurrences, identities'),
 'C35': ('every feasible level + random isogenies', "independent modular polynomial by Newton's identities, symmetry, Kronecker congruence, isogenous curves"),
 'C37': ('random call histories of 56 kinds of calls, on one thread and on four at once', 'the same call alone in a fresh process'),
 'C39': ('random arguments outside the domain of each function, and those at its border', 'a refusal is required; at the border the exact value by direct computation'),
 'C38': ('all curves over tiny fields and random curves', 'metamorphic: several routes through the library to one fact are compared with each other'),
 'C36': ('random planted systems + exhaustive 2x2 / 3x3', 'the planted solution; independent rank'),
}
checks = []
for p in props:
    gen, orc = T[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': 'property-based testing (proptest generators, shrinking): ' + gen + '; oracle: ' + orc,
        'level': 'exploration',
        'level_note': 'No counterexample among the generated cases counted in the evidence; nothing is proved outside them. Oracle: ' + orc + '. Trusts num-bigint arithmetic, which library and reference share. Domain limits are listed in DESIGN.md.',
    })
m = {
 'version': 1,
 'setup_cmd': './check.sh build',
 'checks': checks,
 'not_applicable': [],
 'notes': 'No hooks: everything is observed through the public API. known_findings.txt lists repaired defects (fixed:) and would list unrepaired ones (finding:). Replay: target/release/pbt replay <file>.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
