#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
B, T, TB, PO, SV, EC, DP, SC, SEA, MP, SE = ['src/%s.rs' % s for s in (
    'bigint term term_builder polynomial subscripted_variable elliptic_curve division_polynomial schoof '
    'schoof_elkies_atkins modular_polynomial simultaneous_equation').split()]

p('C01', 'Integer powers, plain and modular, are exact',
  'Raising a big integer to a non-negative exponent gives the exact product of that many factors (1 for exponent 0), whichever exponent type is used. '
  'The modular form with modulus p >= 1 gives the unique value in [0, p) congruent to that power, for every base (negative, larger than p, zero) and every exponent however large.',
  ['inputs'], 'every base, every exponent >= 0, every modulus >= 1',
  'Four fixed evaluations with one-digit operands; no multi-limb operand, negative base, exponent 0 or large exponent is tested.',
  [B], [('square-and-multiply', B)], ['BigInt.power(i32 | BigInt | &BigInt)', 'BigInt.power_modulo'])
p('C02', 'Modular inverse inverts every unit modulo a prime',
  'For every prime p and every integer a that is not a multiple of p, the inverse of a modulo p is the unique value v in [0, p) with a*v = 1 (mod p), also when a is negative or larger than p.',
  ['inputs'], 'every prime p, every integer a not divisible by p',
  'Only 1..4 modulo 19 are tested; curve arithmetic uses it at every size up to 256 bits.',
  [B], [("Fermat's little theorem through the modular power", B)], ['BigInt.inverse'])
p('C03', 'Extended Euclid returns the gcd with Bezout coefficients',
  'For every pair (a, b) the result (g, x, y) satisfies a*x + b*y = g and |g| = gcd(a, b); for non-negative a and b, g is the non-negative gcd.',
  ['inputs'], 'every pair of integers, of any sign and size, zero included',
  'Two fixed coprime pairs are tested.', [B], [('recursive Euclid', B)], ['bigint::extended_gcd'])
p('C04', 'Chinese remainder result satisfies every congruence',
  'For every list of (modulus, residue) pairs with pairwise coprime positive moduli, the combined result has as modulus the product of all moduli, and its residue is congruent to each given residue modulo its modulus, whatever the order of the list and whether or not the given residues are reduced.',
  ['inputs'], 'every list of pairwise coprime moduli, including the empty and one-element lists, and all residues',
  'One list of three small moduli is tested.', [B], [('incremental Garner-style combination', B)], ['bigint::chinese_remainder'])
p('C05', 'Polynomial addition, subtraction and negation are exact',
  'Adding, subtracting and negating terms and polynomials (x, y, q exponents of any sign, subscripted variables, any integer coefficients) gives exactly the sum, difference and opposite, collecting like monomials and dropping cancelled ones. '
  'Every operand form (term or polynomial on either side, owned or borrowed, assigning or not) gives the same answer.',
  ['inputs'], 'every pair of terms/polynomials and every operator form',
  'A handful of fixed polynomials are added; cancellation and mixed operator forms are hardly exercised.',
  [PO, T], [('coefficient map keyed by monomial', PO)], ['+, -, unary -, +=, -= on Term and Polynomial'])
p('C06', 'Polynomial multiplication and powers are exact',
  'The product of terms and polynomials is the exact product in the polynomial ring, in every operand form, and raising to a non-negative power (including square and cube) equals repeated multiplication, with power 0 giving 1. '
  'Multiplying two factors that both carry a subscripted variable is refused rather than answered wrongly.',
  ['inputs'], 'every pair of factors and every exponent >= 0',
  'A few fixed products and squares; cancellation inside products, zero factors, large exponents are untested.',
  [PO, T], [('schoolbook product into the coefficient map', PO), ('square-and-multiply', PO)], ['*, *=, power, square, cube on Term and Polynomial'])
p('C07', 'Polynomials stay canonical through every history of operations',
  'After any sequence of operations, two polynomials compare equal exactly when they are mathematically equal, a polynomial reports itself zero exactly when it is mathematically zero, and no stored coefficient is zero. '
  'Operations never change operands they only borrow.',
  ['histories'], 'every sequence of public polynomial operations starting from arbitrary polynomials',
  'Tests compare printed text, which hides stored zero coefficients, and never chain more than a few operations.',
  [PO, T], [('removal of zero coefficients in each operation', PO)], ['Polynomial ==, is_zero, terms'],
  [('terms', 'coefficient of each monomial present', PO)])
p('C08', 'Division by a monomial divides exponents and floors coefficients',
  'Dividing a polynomial or term by a single non-zero term subtracts the exponents and divides each coefficient rounding toward minus infinity (terms that become 0 vanish), so dividing a product by its monomial factor gives back the other factor. '
  'All operator forms agree, and division by zero or by a polynomial of two or more terms is refused.',
  ['inputs'], 'every dividend and every divisor monomial',
  'One exact division is tested.', [PO, T], [('termwise floor division', PO), ('exponent subtraction', T)], ['/ and /= on Term and Polynomial'])
p('C09', 'Coefficient reduction modulo n gives the canonical residue polynomial',
  'Reducing a polynomial or term modulo n > 0 (remainder operator, in-place reduction, term reduction) leaves every coefficient in [0, n) and congruent to the original, and removes exactly the terms of polynomials that become 0. '
  'Reduction commutes with addition and multiplication, and all reducing entry points agree.',
  ['inputs'], 'every polynomial and every modulus n >= 1, small or multi-limb',
  'Two fixed reductions of positive coefficients are tested.', [PO, T], [('mod_floor on each coefficient', PO)], ['% i32, % &BigInt, modular_assign, Term.modulo, Term.modular_assign'])
p('C10', 'Modular power of polynomials equals the power reduced',
  'For every polynomial, exponent n >= 0 and modulus p >= 1, the modular power equals the n-th power with all coefficients reduced into [0, p) and vanishing terms removed; for a single term it reduces the coefficient power modulo p and multiplies its x, y and q exponents by n. A term with a subscripted variable is never silently given a wrong power: exponents from 2 on are refused.',
  ['inputs'], 'every polynomial or term, exponent >= 0 and modulus >= 1',
  'No test calls it on polynomials except through one reduction example.', [PO, T], [('square-and-multiply with reduction', PO)], ['Polynomial.power_modulo', 'Term.power_modulo'])
p('C11', 'Polynomial remainder over a prime field is the true remainder',
  'For a prime p and a divisor g in x that is not 0 mod p, the remainder of f (which may also contain y and q) terminates with the unique polynomial of lower x-degree than g, with coefficients in [0, p), that differs from f by a multiple of g modulo p. '
  'This holds for constant divisors, non-monic divisors and unreduced or negative coefficients.',
  ['inputs'], 'every prime p, dividend f and divisor g with g not 0 mod p',
  'One division is tested; constant divisors looped forever unnoticed.', [PO], [('long division by the leading x term', PO)], ['Polynomial.polynomial_modular'])
p('C12', 'Polynomial gcd over a prime field is the monic greatest common divisor',
  'For polynomials f and g in x over a prime field the gcd terminates with the monic polynomial that divides both and is divisible by every common divisor; it does not depend on argument order. '
  'The coprimality test is true exactly when that gcd is 1, and making a polynomial monic scales its reduced form to leading coefficient 1.',
  ['inputs'], 'every prime p and every pair of polynomials in x',
  'gcd is only reached through two fixed curve examples, none of them coprime.', [PO], [('Euclid on polynomial remainders', PO)], ['Polynomial.gcd', 'Polynomial.is_gcd_one', 'Polynomial.to_monic'])
p('C13', 'Evaluation at numbers is exact',
  'Evaluating a polynomial with non-negative x and y exponents at integers (both x and y, or one of them leaving the other letters symbolic) gives exactly the substituted value, like monomials collected; evaluating x then y agrees with y then x and with evaluating both at once. '
  'Reading a polynomial as a scalar returns its constant, and refuses polynomials that contain x, y, q or a subscripted variable.',
  ['inputs'], 'every polynomial and every pair of integers',
  'Only reached through a few curve membership examples.', [PO, T], [('term-by-term evaluation', PO)], ['eval_xy', 'eval_x', 'eval_y', 'to_scalar', 'Monomial.eval_xy', 'Monomial.eval_q'])
p('C14', 'Substituting a polynomial for x or y is exact',
  'Replacing x (or y) by a polynomial gives exactly the expanded composition, leaving the other letters, coefficients and subscripted variables in place; it is additive in the polynomial substituted into, respects products, and is the same at monomial, term and polynomial level.',
  ['inputs'], 'every polynomial with non-negative exponents of the replaced letter and every replacement polynomial',
  'Five fixed substitutions of at most two terms are tested.', [PO, T], [('power of the replacement times the rest of the term', T)], ['eval_x_polynomial', 'eval_y_polynomial'])
p('C15', 'Exponent maps x->x^n, y->y^n, q->q^n and the Frobenius map',
  'The Frobenius map replaces x by x^n and y by y^n, the y-power and q-power maps replace y by y^n and q by q^n, leaving everything else unchanged and collecting like monomials. '
  'For a prime p and a polynomial in x and y, the p-th power of the polynomial and its Frobenius image with n = p agree modulo p.',
  ['inputs'], 'every polynomial or term and every n >= 0 (and n < 0 for single terms)',
  'No test calls them directly.', [PO, T], [('exponent scaling', T)], ['to_frob', 'to_y_power', 'to_q_power'])
p('C16', 'Partial derivatives are exact',
  'The x-derivative and y-derivative of a polynomial or term whose exponents of that letter are non-negative (the other exponents may be negative) are the exact formal partial derivatives: linear, satisfying the product rule, commuting with each other, and dropping terms free of the letter.',
  ['inputs'], 'every polynomial with non-negative exponents of the letter', 'One polynomial of two terms is tested.', [PO, T], [('termwise derivative', T)], ['derivative_x', 'derivative_y'])
p('C17', 'Reduction by the curve equation keeps the class and removes y^2',
  'Reducing a polynomial by y^2 = x^3 + a x + b gives a polynomial of y-degree at most 1 that equals the original modulo the curve equation, exactly over the integers and, in the modular form, modulo p with coefficients in [0, p). '
  'Other letters and negative exponents of x or q are left in place; already reduced input is only affected by the coefficient reduction.',
  ['inputs'], 'every polynomial with non-negative y exponents, every a, b and prime p',
  'Two fixed reductions are tested.', [PO], [('replacing even powers of y by powers of the cubic', PO)], ['reduction', 'reduction_modular'])
p('C18', 'Power-series truncation in q is exact',
  'Truncating a polynomial in q and subscripted variables at order N removes exactly the terms with q exponent above N. '
  'The truncated n-th power of a polynomial with non-negative q exponents equals the full n-th power truncated at N, for every n >= 0 and N >= 0; both refuse polynomials with x or y.',
  ['inputs'], 'every q-polynomial, order N and power n', 'One truncated power of 1 + q is tested.', [PO], [('ordered split of the coefficient map', PO)], ['omit_high_order_q', 'power_omit_high_order_q'])
p('C19', 'Structure queries report the polynomial faithfully',
  'The leading x term, the x-degree, the has-x/has-y/has-q queries, the coefficient of a given q power and the coefficient of a given subscripted variable report exactly what the polynomial contains; absent items give zero, and queries refuse polynomials with letters they do not support.',
  ['inputs'], 'every polynomial in the domain of each query', 'Only highest_term_x on one monomial is tested directly.', [PO, T], [('ordered coefficient map', PO)],
  ['highest_term_x', 'degree_x', 'has_x/has_y/has_q', 'to_q_power_coef', 'to_variable_coef', 'Term.is_equal_order'])
p('C20', 'Printed form is faithful and canonical',
  'The text of a term or polynomial, read back by its own notation ("- 3 x^2 y q^-1 c_1_2 + ..."), denotes exactly that value, with monomials in decreasing order, so equal polynomials print alike and different ones differ; zero prints as 0. '
  'A point prints as O or as (x, y), a list of points comma separated, and a curve prints its field, cubic, cardinality and j-invariant.',
  ['inputs'], 'every polynomial without stored zeros, every point, point list and curve', 'Printing is checked on some 60 fixed values.', [PO, T, SV, EC], [('Display implementations', PO)], ['to_string of Term, Polynomial, SubscriptedVariable, ECPoint, ECPointVec, EllipticCurve'])
p('C21', 'Term construction, monomial equality and order are consistent',
  'A term builder yields exactly the coefficient, exponents and variable last set on it (coefficient 1 and no letters by default), through every coefficient type, and can be reused; setting a variable by two subscripts refuses negative ones. '
  'Monomials are totally ordered by x, y, q exponent and then variable (no variable first, then by subscripts), the order is consistent with equality and makes no distinction between absent variables; terms compare by monomial.',
  ['inputs'], 'every builder call sequence; every triple of monomials', 'Only used implicitly; order laws are not tested.', [T, TB, SV], [('Ord/Eq implementations', T), ('builder', TB)], ['TermBuilder', 'Monomial/SubscriptedVariable ==, cmp, partial_cmp', 'Term cmp'])
p('C22', 'Subscripted-variable numbering is a bijection',
  'For every prime p the numbering of the variables c_i_j with 0 <= i <= j <= p is a bijection with 0 .. count-1, where count = (p+1)(p+2)/2; both directions are inverse to each other, mixed pairs come before equal pairs, each in lexicographic order. '
  'The absent variable has no number; indices at or above the count, variables outside the range and non-prime p are refused.',
  ['inputs', 'configurations'], 'every prime p, every index and every variable', 'Ten lookups for p = 3 in one direction and one in the other.', [SV], [('nested enumeration of pairs', SV)], ['SubscriptedVariableConverter'])
p('C23', 'Rational points are enumerated completely and membership is exact',
  'A curve y^2 = x^3 + a x + b over a prime field lists every solution (x, y) with coordinates in [0, p) exactly once plus one point at infinity, also when the list is made anew, and its cardinality is the length of that list, for any integers a, b. '
  'A point is reported on the curve exactly when it is the point at infinity or its integer coordinates satisfy the equation modulo p.',
  ['inputs'], 'every prime p >= 2, all integers a, b (reduced or not), all integer coordinates', 'The point list is checked for one curve over F_5.', [EC], [('brute-force enumeration', EC), ('equation evaluation', EC)], ['EllipticCurve::new', 'points', 'cardinality', 'is_on_curve'])
p('C24', 'j-invariant is exact and invariant under isomorphism',
  'For every non-singular curve over a prime field with p >= 5 the j-invariant is the value in [0, p) of 1728 * 4a^3 / (4a^3 + 27b^2), hence equal for (a, b) and (u^4 a, u^6 b), 0 when a = 0 and 1728 mod p when b = 0.',
  ['inputs'], 'every prime p >= 5 and every non-singular (a, b), small fields and 256-bit fields', 'Three printed curves are checked.', [EC], [('closed formula', EC)], ['EllipticCurve.j_invariant'])
p('C25', 'Point addition and negation form the curve group',
  'On every non-singular curve over a prime field with p >= 3, addition returns the chord-and-tangent sum as a point of the curve, the point at infinity is neutral on both sides, negation gives the inverse, and addition is commutative and associative. '
  'Coordinates are taken modulo p, sums of reduced points are reduced, and adding a point that is not on the curve is refused.',
  ['inputs'], 'every curve, every pair or triple of points including equal, opposite, order-2 and infinite ones, small and cryptographic fields', 'No test adds a given pair of points and checks the sum except on secp256k1 doublings.', [EC], [('chord-and-tangent formulas', EC)], ['EllipticCurve.plus', 'EllipticCurve.negate', 'canonicalize', 'ECPoint'])
p('C26', 'Scalar multiplication is repeated addition for every integer',
  'Multiplying a point by an integer n gives the n-fold sum: 0 gives the point at infinity, negative n the opposite of the |n|-fold sum, (m+n)P = mP + nP and m(nP) = (mn)P, also for points of even order, the point at infinity, and scalars far larger than the group order.',
  ['inputs'], 'every non-singular curve (p >= 3), point and integer scalar', 'Scalars 1, 2, 3 on one base point are tested.', [EC], [('double-and-add', EC)], ['EllipticCurve.multiply_scalar'])
p('C27', 'Point order and torsion subsets are exact',
  'The order of a point is the smallest n >= 1 with nP = O, and it divides the cardinality of the curve. '
  'The n-division points are exactly the rational points P with nP = O, each once.',
  ['inputs'], 'every non-singular curve over a small prime field, every point, every n', 'Orders on one curve and five torsion lists are tested.', [EC], [('repeated addition', EC), ('filter by scalar multiplication', EC)], ['point_order', 'division_points'])
p('C28', "Isogeny codomain is Velu's curve for the rational n-torsion",
  "The isogeny of order n from a non-singular curve leads to the curve given by Velu's formulas for the subgroup of rational points P with nP = O: same field, non-singular, same number of rational points, and Velu's point map sends every point outside the kernel onto it. "
  'This also holds along chains of isogenies and when the kernel is trivial.',
  ['inputs', 'histories'], 'every non-singular curve over a small prime field, every n >= 1, every chain', 'The only test walks a chain and prints it, asserting nothing.', [EC], [("Velu sums over the kernel", EC)], ['EllipticCurve.isogeny'])
p('C29', 'Division polynomials give multiplication by n',
  'For all integers a, b the division polynomials psi_n (n >= 0), phi_n and omega_n (n >= 1) have y-degree at most 1 and satisfy n(x, y) = (phi_n / psi_n^2, omega_n / psi_n^3) on every curve point with nP not O, and psi_n vanishes exactly at the points with nP = O. '
  'They equal the integer polynomials defined by the standard recurrences, with psi_n^2 of leading coefficient n^2.',
  ['inputs'], 'all integers a, b, every n, every curve point', 'n <= 5 for a = b = 1 only.', [DP], [('recurrences with reduction by the curve equation', DP)], ['division_polynomial::psi', 'phi', 'omega'])
p('C30', "Schoof's residues are the trace of Frobenius",
  'For every non-singular curve over F_q, q an odd prime, the result lists the modulus 2, and 3 and 5 when smaller than q, each with the residue of q + 1 - #E(F_q); combined by the Chinese remainder theorem they determine the number of points whenever the product exceeds the Hasse interval.',
  ['inputs'], 'every odd prime q and non-singular (a, b), all torsion shapes (including Frobenius acting as a scalar)', 'The two tests of this module are ignored and never run.', [SC, DP, PO, B], [('comparison of (x^(q^2),y^(q^2)) + q(x,y) with j(x^q,y^q) modulo psi_l', SC)], ['schoof::schoof'])
p('C31', 'SEA step splits the modular polynomial correctly',
  'For a prime l and a non-singular curve over F_p with p >= 5, the step returns the monic gcd of x^p - x and the l-th modular polynomial at the curve j-invariant: the product of (x - r) over its distinct roots r in F_p; its degree and the Elkies flag (degree > 0) agree. '
  'The listed isogenous j-invariants are the smallest such roots in increasing order, all of them up to two.',
  ['inputs'], 'every prime p >= 5, non-singular curve, l in {2, 3, 5}', 'Two curves, both with two roots; the no-root case never ended.', [SEA, PO, MP], [('gcd with x^p - x', SEA), ('root search', SEA)], ['schoof_elkies_atkins::sea'])
p('C32', 'secp256k1 parameters and arithmetic are the standard ones',
  'The curve has the standard prime 2^256 - 2^32 - 977, a = 0, b = 7 and the standard generator, which has the standard prime order. '
  'For every integer k, multiplying the generator by k gives the public key defined by the standard, on the curve and with coordinates in [0, p).',
  ['inputs'], 'every scalar k, including 0, negatives, and values near and above the group order', 'k = 1, 2, 3 only.', ['src/secp256k1.rs', EC, B], [('fixed parameters', 'src/secp256k1.rs')], ['Secp256k1::new', 'multiply_scalar'])
p('C33', 'Divisor sums are exact',
  'The divisor-sum function of n and k is the sum of the k-th powers of the positive divisors of n for n >= 1, k >= 0, and 0 for n <= 0 or k < 0; it is multiplicative over coprime arguments.',
  ['inputs'], 'every n and k', 'n <= 13 and k in {0, 1, 3}.', ['src/divisor.rs'], [('trial division', 'src/divisor.rs')], ['divisor::sigma_divisor'])
p('C34', 'Modular-form q-expansions are exact to the requested order',
  'At every order N >= 0 the expansions returned for E4, the product over (1 - q^n)^24, its inverse, q*j and j have exactly the terms of the true series up to order N (j from q^-1, and at N = -1 too) and none beyond; hence lower orders are prefixes of higher ones and E4^3 = j * Delta up to order N.',
  ['inputs'], 'every order N', 'Orders up to 6 for E4 and j, 3 for delta.', ['src/eisenstein.rs', 'src/delta.rs', 'src/j_invariant.rs', PO], [('truncated products and geometric series', 'src/delta.rs'), ('divisor sums', 'src/eisenstein.rs')], ['eisenstein4', 'delta1', 'delta1_inverse', 'j_invariant1', 'j_invariant'])
p('C35', 'Modular polynomials vanish exactly on isogenous j-invariants',
  'For a prime l the modular polynomial is symmetric in x and y, monic of degree l+1 in each, vanishes at (j(q), j(q^l)) to every computed order, satisfies the Kronecker congruence modulo l, and modulo any prime vanishes at the j-invariants of curves joined by an isogeny of degree l. '
  'The intermediate generic polynomial, its q-expansion and the list of its coefficients of q^(-l^2-l) .. q^0 are exact, and the true coefficients satisfy every equation of the list.',
  ['inputs', 'configurations'], 'every prime l (checked for those that finish), every prime field and l-isogeny', 'Text comparison for l = 2, 3, 5; nothing ties the text to isogenies or other l.', [MP, SE, SV, 'src/j_invariant.rs'], [('q-expansion matching', MP), ('linear solve', SE)], ['modular_polynomial', 'subscripted_variable_modular_polynomial', '..._q', '..._list'])
p('C36', 'Linear systems with a unique integer solution are solved',
  'For every consistent system of linear equations with integer coefficients (last column the right-hand side), at least as many equations as unknowns, and a unique solution that is integral, the i-th returned row ends with the value of the i-th unknown, whatever the order of the equations and wherever zero pivots occur. '
  'The input is not modified, the result has the same shape, and a system whose coefficient matrix does not have full column rank is refused.',
  ['inputs'], 'every such integer system', 'No test calls it; it is only reached for three modular polynomials.', [SE], [('fraction-free elimination with row exchange', SE), ('back substitution', SE)], ['simultaneous_equation::solve'])
p('C37', 'Results do not depend on earlier or concurrent calls',
  'Every public function returns, for the same arguments, the same result (or the same refusal) whatever calls were made before it in the process, with whatever arguments, refused ones included, and whatever calls run on other threads at the same time.',
  ['histories', 'schedules', 'inputs'], 'every sequence and every interleaving of calls, of one function with changing arguments and of different functions', 'Each test calls a function a few times; a cache with an incomplete key or a shared scratch value goes unseen.', [PO, B, DP, MP, SV, EC, SC, SEA, 'src/j_invariant.rs', 'src/delta.rs', 'src/secp256k1.rs'], [('memoization of division polynomials', DP)], ['all public functions'])
p('C38', 'Different routes through the library to one fact agree',
  'For every nonsingular curve over F_p with p >= 5 the functions of the library agree with one another: the counted number N of points lies in the Hasse interval, N and the number of points on the twist by a non-residue add up to 2p+2 with equal j-invariants; every order divides N and every multiple by N is the identity; a point is listed in the n-torsion exactly when its order divides n and exactly when the n-th division polynomial is zero at it, and otherwise n times the point by addition equals the quotient of the division polynomials; the gcd of x^p - x and the cubic has one root for each point of order 2; the residues Schoof finds, and their combination by the Chinese remainder theorem, are those of p + 1 - N; '
  'for an ordinary curve with j different from 0 and 1728 the Elkies flag of l tells whether the polynomial of Frobenius has a root modulo l, the modular polynomial of level l vanishes at the pairs of j-invariants sea returns and at the j-invariants of the curves isogeny() joins by a kernel of l points, and the curve isogeny() returns has N points.',
  ['inputs', 'configurations'], 'every prime p >= 5 and nonsingular curve', 'Each test looks at one function and one curve.', [EC, DP, SC, SEA, MP, B, PO], [('group law and orders', EC), ('Schoof residues', SC), ('modular polynomial roots', SEA)], ['EllipticCurve methods', 'division_polynomial::psi/phi/omega', 'schoof', 'sea', 'modular_polynomial', 'chinese_remainder', 'Polynomial::gcd'])
p('C39', 'Arguments for which there is no answer are refused',
  'Instead of an answer, a call is refused (panics) for: an integer or a term to a power below zero unless the integer or coefficient is 1 or -1, where the result is exact (modulo p for the modular powers), and a polynomial of two or more terms to a power below zero; evaluating a negative exponent at a value other than 1 and -1 (exact at 1 and -1); evaluating q to a value that does not fit the result type; a term power whose exponents do not fit; inverses modulo anything below 2, and residues modulo 0; dividing by a term with a subscripted variable; remainders by a divisor that vanishes modulo p or contains y or q; division polynomials of negative index (phi and omega also 0); modular polynomials, their q-expansions and lists, and sea at a level that is not prime; listing the points of a curve over a modulus that is not prime or needs more than 64 bits. '
  'The derivative of a negative power is either refused or exact.',
  ['inputs', 'configurations'], 'every such argument', 'No test passes an argument outside the domain.', [B, T, PO, DP, MP, EC, SEA], [('argument checks', PO), ('powers below zero', B)], ['Power', 'PowerModulo', 'Inverse', 'Monomial/Polynomial eval_*', 'polynomial_modular', 'psi/phi/omega', 'modular_polynomial*', 'sea', 'EllipticCurve::new'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
