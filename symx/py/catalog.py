"""The catalogue of properties; `python3 catalog.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
BN = 'src/mp/bignat.rs'
MED = 'src/btc_validation/median.rs'
DIF = 'src/btc_validation/difficulty_update.rs'
HDR = 'src/btc_validation/header_step.rs'
NUM = 'src/util/num.rs'
BIT = 'src/util/bit.rs'
GAD = 'src/util/gadget.rs'
POLY = 'src/mp/poly.rs'
LAZY = 'src/util/lazy.rs'
CONV = 'src/util/convert.rs'

P = {}


def prop(id, title, statement, over, text, why, files, mech, level_note='', observe=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                              **({'observe_at': observe} if observe else {})), note=level_note)


prop('C01', 'Equality gadgets decide exactly equality',
     'The equality test of two field elements, and of two large numbers with the same limb layout, returns a wire that is 1 exactly '
     'when the two are equal limb by limb and 0 otherwise: the honest prover computes that value and its witness satisfies every '
     'constraint, and no assignment that satisfies the constraints gives the wire another value. '
     'Large numbers of different layouts are refused.',
     ['inputs'], 'every pair of field elements, every pair of numbers with limbs anywhere in the field, and every assignment of the auxiliary wires',
     'the unit test compares 4 with 4 and looks at the witness value only; the difference inverse is a free wire and only a proof over all assignments shows that it cannot be abused',
     [BN], [('difference, inverse and zero-test constraints', BN + ' equals'), ('conjunction over limbs', BN + ' is_equal')])

prop('C02', 'Less-than and less-or-equal gadgets compare correctly at every width',
     'For operands of at most n bits the strict and the non-strict comparison return a wire that is 1 exactly when the stated order holds, '
     'for every supported width n. The honest witness satisfies the constraints, and no other assignment of the auxiliary wires that '
     'satisfies them makes the wire lie.',
     ['inputs', 'configurations'], 'all operand pairs below 2^n for each width n from 1 to 252, and all assignments of the auxiliary wires',
     'the tests compare 11 with 14 at 32 bits and read the witness value; the widths above 126 bits take a different branch and the constraints are never attacked',
     [MED], [('shift by 2^(n+1) and test of the top bit', MED + ' less_than, leq'), ('range check of the low bits', MED + ' constrain_low_bits')])

prop('C03', 'The computed median is the middle of the sorted timestamps',
     'For any non-empty list of timestamps the computed median is one of them, at most half of the others are smaller and at most half are larger '
     '(the upper middle for even lengths). The list is not lengthened or shortened.',
     ['inputs'], 'all lists of 32-bit timestamps of the lengths given in the evidence, including the 11 used by the chain rule',
     'one permutation of 1..11 is tested; duplicates, ties and other orders are not',
     [MED], [('sort and pick the middle', MED + ' compute_median_timestamp')])

prop('C04', 'Median verification accepts exactly the true median',
     'For an odd number of 32-bit timestamps the verification gadget returns true exactly when the claimed value is their median, whether or not the '
     'claimed value occurs among them. The honest witness always satisfies the constraints, and no other assignment can turn the verdict.',
     ['inputs'], 'all lists of 32-bit timestamps of odd length up to 11, all claimed medians, and all assignments of the auxiliary wires',
     'the single test offers the correct median of one list; a wrong median, a median absent from the list and forged wires are not tried',
     [MED], [('occurrence count against the absolute rank difference', MED + ' verify_median_timestamp')])

prop('C05', 'The difficulty retarget is old target times timespan over two weeks',
     'Computing a retarget yields the integer quotient of the old target times the timespan by 1209600 seconds, and verifying one accepts exactly that quotient; '
     'both refuse timespans of a quarter of two weeks or less and of four times two weeks or more. '
     'What the emitted constraints accept is that quotient and nothing else.',
     ['inputs'], 'all old and claimed targets within the stated widths, all 32-bit timespans, and all assignments of the auxiliary wires',
     'the tests retarget three historical values with matching results; quotients with carries between limbs, the window edges and forged wires are not reached',
     [DIF, BN], [('window comparison and modular product', DIF + ' verify_difficulty_update, calculate_difficulty_update')])

prop('C06', 'Numbers and limbs convert into each other without loss',
     'Splitting a natural number into limbs yields its base-2^w digits when it fits and an error exactly when it does not, and joining limbs gives the weighted sum back. '
     'A number allocated or built from limbs carries wires, limb values and a value that agree, truthful claims about its limb bound, and exactly the requested number of limbs; '
     'a wrong limb count is an error, and allocation alone adds no constraint.',
     ['inputs', 'configurations'], 'all naturals up to beyond the capacity, for each listed limb width and count',
     'tests use a handful of constants through other gadgets',
     [BN], [('digit extraction', BN + ' nat_to_limbs, limbs_to_nat'), ('allocation', BN + ' alloc_from_nat, alloc_from_limbs, from_limbs, as_limbs')])

prop('C07', 'Range checks admit exactly the numbers that fit',
     'The range-check constraints for n bits can be satisfied exactly when the number is below 2^n, and the honest witness satisfies them in that case. '
     'The well-formedness check of a large number does this for every limb.',
     ['inputs', 'configurations'], 'every field element, for widths 1 to 254, and every assignment of the bit wires',
     'one value at one width is tested, always through the honest witness',
     [NUM, BN], [('bit wires and the implied last bit', NUM + ' fits_in_bits'), ('per-limb check', BN + ' assert_well_formed')])

prop('C08', 'Bit decomposition is the binary representation and recomposition undoes it',
     'Decomposing a number into n bits yields boolean wires that are its binary digits, least significant first, and is satisfiable exactly when the number fits; '
     'decomposing a large number concatenates the digits of its limbs. Recomposing bits with any limb width gives back the same number, and '
     'constraining a number to equal given bits holds exactly when it is their weighted sum.',
     ['inputs', 'configurations'], 'every field element and limb vector, for the listed widths, and every assignment of the bit wires',
     'the tests decompose 1, 5 and 255 and random numbers of one layout, with honest witnesses only',
     [NUM, BN, BIT], [('bit allocation and sum constraint', NUM + ' decompose, is_equal'), ('limb concatenation', BN + ' decompose, recompose')])

prop('C09', 'A field element is carried into limbs and wires faithfully',
     'Turning a field element into a large number yields range-checked limbs whose weighted sum is that element, with limb values and value that match the wires, '
     'or an error when the element does not fit; turning a linear combination into a plain wire constrains the wire to the combination. '
     'No assignment can give the limbs another sum (with room for the field modulus: another residue).',
     ['inputs', 'configurations'], 'every field element, for the listed limb layouts, and every assignment of the limb and bit wires',
     'only used in passing by three difficulty tests',
     [BN, NUM], [('sum constraint and range checks', BN + ' from_num'), ('copy constraint', NUM + ' as_sapling_allocated_num')])

prop('C10', 'Carried equality holds exactly for numbers of equal value',
     'The equality assertions on large numbers are satisfiable exactly when the two are equal: limb by limb for the plain one, in total value for the two that '
     'propagate carries, whatever the limb sizes allowed by the declared bounds, and also after regrouping limbs. '
     'The honest witness is accepted whenever the values are equal.',
     ['inputs', 'configurations'], 'every pair of numbers whose limbs respect the declared bounds, in the listed layouts, and every assignment of the carry wires',
     'five example pairs of up to four limbs are tested with honest carries',
     [BN], [('carry chain', BN + ' equal_when_carried'), ('regrouping', BN + ' equal_when_carried_regroup, group_limbs'), ('limb comparison', BN + ' equal')])

prop('C11', 'Products of large numbers are exact and divisibility is decided',
     'The product of two large numbers has the exact product as value, truthful limb bounds, and cannot be forged; '
     'the divisibility assertion for a non-zero divisor is satisfiable exactly when a quotient exists, and the honest prover finds it (a zero divisor is refused).',
     ['inputs', 'configurations'], 'every pair of numbers within the declared bounds, in the listed layouts, and every assignment of the coefficient wires',
     'products are only exercised through fixed modular examples',
     [BN, POLY], [('polynomial product', BN + ' mult'), ('quotient and carried equality', BN + ' divides')])

prop('C12', 'Modular products satisfy a*b = q*m + r with an in-range remainder',
     'The modular multiplication and reduction gadgets return the exact quotient and remainder of the Euclidean division for the honest prover, whose witness satisfies the constraints; '
     'every satisfying assignment satisfies a*b = q*m + r over the integers with limbs in range. '
     'Asserting a claimed modular product is satisfiable exactly when the claimed remainder is congruent with a fitting quotient.',
     ['inputs', 'configurations'], 'all operands and non-zero moduli within the declared bounds, in the listed layouts, and every assignment of quotient, remainder and carry wires',
     'thirteen fixed or random instances with honest witnesses are tested; wrong remainders only once',
     [BN], [('quotient and remainder allocation, carried equality', BN + ' mult_mod, red_mod, assert_product_mod')])

prop('C13', 'Addition and subtraction of large numbers are exact',
     'Adding two large numbers gives limb-wise sums with truthful bounds. Subtraction yields a number whose limbs are in range and whose sum with the subtrahend is the minuend; '
     'it succeeds exactly when the minuend is not smaller, and no assignment can make it return anything else.',
     ['inputs', 'configurations'], 'every pair of numbers within the declared bounds, in the listed layouts, and every assignment of the difference and carry wires',
     'no test calls either directly',
     [BN], [('limb-wise sum', BN + ' add'), ('difference witness and carried equality', BN + ' sub')])

prop('C14', 'Reshaping a large number preserves its value and its declared bounds',
     'Concatenation, truncation, padding, regrouping, shifting by and scaling with a constant, and the constant one produce exactly the number their definition says, '
     'with limb values, value and wires in agreement, and every declared limb bound and minimum size of the result is true.',
     ['inputs', 'configurations'], 'all limb vectors within the declared bounds, in the listed layouts, and all constants',
     'no test looks at the result of these operations or at the declared bounds',
     [BN], [('limb rearrangement and parameter updates', BN + ' concat, truncate_limbs, with_n_limbs, group_limbs, shift, scale, one, n_bits')])

prop('C15', 'Selection gadgets return the selected number',
     'Choosing between two numbers by a bit, swapping two numbers by a bit, choosing among several by an index of bits, and taking the minimum return exactly the selected numbers, '
     'with values and wires in agreement and truthful declared bounds. Wrong numbers of inputs are errors, and no assignment makes the result differ from the selection.',
     ['inputs', 'configurations'], 'all pairs and families of numbers in the listed layouts, all selector bits, and every assignment of the auxiliary wires',
     'no test calls them',
     [GAD, BN], [('selection constraint', BN + ' Gadget::mux'), ('tree and swap', GAD + ' mux_tree, switch'), ('minimum', BN + ' min')])

prop('C16', 'Polynomial products and sums are exact',
     'The allocated product of two polynomials has as coefficients the convolution of the factors, and no other coefficients satisfy its constraints; sums are coefficient-wise with zero padding. '
     'Evaluation is Horner-exact, so the evaluation of the product is the product of the evaluations.',
     ['inputs', 'configurations'], 'all coefficient vectors over the field for the listed degrees, every evaluation point, and every assignment of the product wires',
     'one product of constant polynomials is tested',
     [POLY], [('evaluation at enough points', POLY + ' alloc_product'), ('coefficient-wise sum', POLY + ' sum'), ('evaluation', POLY + ' evaluate_at')])

prop('C17', 'Bit vectors keep wires and values in step',
     'Every operation on a bit or a bit vector (reverse, truncate, shift, push, pop, insert, append, get, negate, constants, conversion) moves the wires and the values by the same '
     'permutation or selection that its name says. This holds through any sequence of operations.',
     ['inputs', 'histories'], 'all bit values, positions and lengths listed, and all operation sequences of the stated length',
     'no test calls them directly; a history in which wires and values drift apart is never built',
     [BIT], [('parallel updates of wires and values', BIT + ' Bitvector'), ('bit constructors', BIT + ' Bit')])

prop('C18', 'A lazily computed value is computed once, on first use',
     'The deferred computation runs at most once however many times and through whichever clone the value is read, not before the first read, and every read returns the same value.',
     ['histories', 'inputs'], 'all sequences of reads through the clones up to the stated length, and all results',
     'no test reads a lazy value twice or through a clone',
     [LAZY], [('state change on first read', LAZY + ' LazyCell::borrow')])

prop('C19', 'Conversions between field elements and integers are exact',
     'Converting a field element to an integer and back gives the same element; converting an integer gives the element congruent to it, '
     'refusing negative integers; machine-sized integers convert exactly in both directions.',
     ['inputs'], 'all field elements, all integers up to the stated size of either sign, all 64-bit machine integers',
     'one constant per direction is tested',
     [CONV], [('byte-wise and decimal conversion', CONV)])

prop('C20', 'A header step accepts exactly valid headers and updates the running state',
     'Given the running state z and an 80-byte header, a step is accepted exactly when: the header names the hash z[0] as its previous block; its double SHA-256 is at most its target, '
     'the target being mantissa * 256^(exponent-3) below 2^224 with 3 <= exponent <= 29, positive mantissa and clear sign bit; its timestamp exceeds the median of z[1..11]; and the target '
     'equals z[12], or at a period start (z[14] = 0) the retarget floor(z[12]*(z[11]-z[13])/two weeks) cut to the precision of the exponent, the timespan lying strictly between a quarter and four times two weeks. '
     'Then the output is: the new hash, the timestamps shifted by the new one, the target, the period start (the new timestamp at a period start), the counter modulo 2016, '
     'and the work increased by floor(0xFFFF*256^26 / target). No other output satisfies the constraints.',
     ['inputs', 'histories'], 'all headers (per exponent) and all running states with hash and target below 2^224, 32-bit times, an 11-bit counter and any work',
     'no test runs a step',
     [HDR], [('step synthesis', HDR + ' synthesize')])

prop('C21', 'The circuit does not depend on the witness',
     'For fixed parameters every gadget emits the same variables, constraints and coefficients in the same order whatever the witness values are. '
     'They also emit them when no witness is available, as for key generation.',
     ['inputs', 'configurations'], 'all witness values for each listed gadget and layout, and the run without a witness',
     'the tests run each circuit on one witness and never compare two runs',
     [BN, NUM, MED, DIF, POLY, BIT], [('value closures separated from constraint emission', BN + ', ' + NUM + ', ' + MED)])

prop('C22', 'Minimum-size enforcement holds exactly for numbers of that size',
     'Enforcing a minimum bit length is satisfiable exactly when the number is at least that long and its limbs fit, and afterwards the declared minimum is true; '
     'enforcing the full length requires the very top bit.',
     ['inputs', 'configurations'], 'all limb vectors in the listed layouts and all minimum lengths, and every assignment of the auxiliary wires',
     'no test calls them',
     [BN], [('top bits and bit count', BN + ' enforce_full_bits, enforce_min_bits')])

prop('C23', 'Exposed public inputs equal the limbs they expose',
     'Making a large number public adds one public input per limb, in order, constrained to equal that limb and holding its value, through either of the two interfaces.',
     ['inputs', 'configurations'], 'all limb vectors in the listed layouts and every assignment',
     'no test makes a number public',
     [BN, GAD], [('public input per limb', BN + ' inputize'), ('public input per wire', GAD + ' inputize')])

prop('C24', 'Numbers of different limb widths are never combined',
     'Every operation on two large numbers that requires a common limb width returns an error instead of a result when the widths differ.',
     ['configurations', 'inputs'], 'all operations with two or three operands, for the listed width pairs, and all limb values',
     'no test mixes widths',
     [BN], [('width agreement test', BN + ' enforce_limb_width_agreement')])

READY = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24']
NA = {}

TECH = 'symbolic execution of the compiled LLVM IR + SMT (z3, cvc5) over all inputs and over all assignments of the emitted constraints'
NOTE = {}


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P.values():
            q = {k: v for k, v in p.items() if k != 'note'}
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    checks = []
    for i in READY:
        checks.append(dict(property=i, quick_cmd=f'python3-vt symx/py/check.py {i} --tier quick',
                           thorough_cmd=f'python3-vt symx/py/check.py {i} --tier thorough', technique=TECH, level='other',
                           level_note=NOTE.get(i, 'bounded symbolic verification of the compiled code: every obligation is decided for all values within the bounds in the evidence file; '
                                               'layouts outside the listed ones are not covered')))
    na = [dict(property=i, reason=NA.get(i, 'the check is not finished yet')) for i in P if i not in READY]
    m = dict(version=1, setup_cmd='python3-vt symx/py/setup.py', checks=checks, not_applicable=na,
             notes='See DESIGN.md. /repo carries only "fix:" commits, no hooks. Known findings are in known_findings.jsonl.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
