"""What decides each property: engines, profiles, and the stated bounds.

sym:  build profiles in which the symx harnesses of the property run (-nouw: the library without unicode_width)
kani: (module, profile) pairs of Kani harness modules
dev = debug assertions and overflow checks on, rel = both off
"""

SYMX = ('symx executes the real generic functions of /repo, compiled into the harness, on symbolic element values: every element '
        'operation builds an SMT term, every decision the code takes on elements is put to the solver and forks the path when both '
        'outcomes are possible, and every assertion is proved by z3 under its path condition (unsat of the negation). ')
KANI = ('Kani translates the compiler\'s MIR of the real functions (monomorphised at the stated shapes) to CBMC; inputs are symbolic '
        'machine values, unwinding assertions are on, and every harness carries a reachability witness. ')
REPLAY = 'A counterexample is replayed natively against the ordinary build before it is reported.'
A_KANI = 'Kani 0.68/CBMC translate MIR faithfully; panics abort (no unwinding is modelled), as stated per property'
A_SYMX = 'the symbolic element type\'s operations behave as the stated theory says; rustc compiles the generic code uniformly in the element type (no specialisation on the element type is possible in this crate)'
A_Z3 = 'z3 (z3-new) answers unsat only for unsatisfiable queries'
A_GEN = 'generic-array, typenum, nodrop, num, approx and core behave as compiled here; they are executed, not specified'
IGN = 'CBMC\'s zero-length memset precondition check is ignored (tool artefact for [T; 0])'


def P(explain, bounds, outside, sym=(), kani=(), must_compile=(), assume=()):
    a = [A_GEN]
    if sym:
        a += [A_SYMX, A_Z3]
    if kani:
        a += [A_KANI, IGN]
    return dict(sym=list(sym), kani=list(kani), must_compile=list(must_compile), assume=a + list(assume), bounds=bounds, outside=outside,
                explain=(SYMX if sym else '') + (KANI if kani else '') + explain + ' ' + REPLAY)


ALL_V = 'every vector length 0..32 (all the library supports through its array impls)'
SHAPES = ('shapes 0x0 0x3 3x0 1x1 1x2 1x5 2x1 4x1 2x2 2x3 3x2 3x3 2x5 5x2 4x3 3x4 4x4 5x5')
WIDE = '1x32 32x1 7x9 9x7 6x6 8x8 2x17 16x3'

PLAN = {
 'C01': P('Elements are entries of a life table: every creation, use, hand-over and drop is checked. In symx a free variable `fault` names '
          'at most one element operation, callback or drop that panics (all of them are explored by forking on it, unwinding included); in Kani, '
          'Box and counting elements bring CBMC\'s use-after-free, double-free and pointer checks, with a symbolic skip amount.',
          'symx: collecting into lengths 0,1,2,3,5 (thorough 8,17,32) of 0..N+2 items with 4 size hints each; iterator histories of up to 3 calls (thorough 4) '
          'out of next/next_back/nth(1)/nth(2)/nth(MAX)/nth_back(1) then drop/count/last/rev fold/for, lengths 0..3 (thorough 5, 32); chunk histories of up to 2 (thorough 3) calls; '
          'every public container operation once on small shapes with at most one fault anywhere. Kani: all windows of IntoIter of lengths 0..3 (thorough 5) '
          'and of Chunks (2,2) (2,1) (4,2), every usize skip amount; dev and release profile.',
          'longer histories; two or more faults; larger shapes; language-level undefined behaviour that no access reveals (mem::uninitialized of a generic type in from_iter); concurrency (none in the crate)',
          sym=['dev', 'rel'], kani=[('c01', 'dev'), ('c01', 'rel')],
          assume=['at most one user-code panic per scenario', 'a panic inside a drop that runs during unwinding aborts and is not explored']),
 'C02': P('A reference sequence 0..n with two cursors runs in lock-step with the real iterator.',
          'all windows (a taken from the front, c from the back) of lengths 0,1,3 and, at the ends and the middle, 6 and 9 (thorough 5, 32), each followed by any of next/next_back/nth(k)/nth_back(k)/count/last/fold/rev-fold '
          'with every usize k and then by a drain and length queries; all histories of two calls of length 3 (thorough three calls, length 2); all element values (u8); symx: elements of an arbitrary type, every length 0..32; after every window (all for up to 6 items, else with 0, 1, 2, half, all but one, all taken from each end, in three orders) each of next, next_back, nth, nth_back (skips 0..3, around what is left, around 2^32, 2^63 and the largest) and then one of twelve ways to take the rest, lengths checked in between; two such calls for few items; dev and release profile',
          'skip amounts other than the listed ones for lengths only symx covers', sym=['dev', 'rel'], kani=[('c02', 'dev'), ('c02', 'rel*')]),
 'C03': P('A reference sequence of chunks with two cursors runs in lock-step with the real iterator.',
          '(N, I) in (0,2) (3,3) (3,1) (4,2) (6,2) (6,3) (thorough also (12,4) (32,8)); all windows, each followed by next/next_back/nth(k)/nth_back(k)/count/last/fold/rev-fold, every usize k; all histories of two calls on (4,2) (thorough three on (6,2)); all element values (u8); symx: elements of an arbitrary type, 79 pairs (N, I) with N up to 32; after every window (all for up to 6 items, else with 0, 1, 2, half, all but one, all taken from each end, in three orders) each of next, next_back, nth, nth_back (skips 0..3, around what is left, around 2^32, 2^63 and the largest) and then one of twelve ways to take the rest, lengths checked in between; two such calls for few items; dev and release profile',
          'as C02', sym=['dev', 'rel'], kani=[('c03', 'dev'), ('c03', 'rel*')]),
 'C04': P('A reference sequence of rows/columns/column elements runs in lock-step with each of the five real iterators; by-reference items are compared by address as well as by value.',
          'sequences of 0..3 rows/columns (thorough 4), cross length 0..3, by the harness names in this file; all windows, each followed by next/next_back/nth(k)/nth_back(k)/count/last with every usize k and a drain; histories of two calls beginning with nth/nth_back (thorough all of three calls); all element values (u8); symx: elements of an arbitrary type, ' + 'matrix ' + SHAPES + ' ' + WIDE + '; after every window (all for up to 6 items, else with 0, 1, 2, half, all but one, all taken from each end, in three orders) each of next, next_back, nth, nth_back (skips 0..3, around what is left, around 2^32, 2^63 and the largest) and then one of twelve ways to take the rest, lengths checked in between; two such calls for few items; dev and release profile',
          'as C02', sym=['dev', 'rel'], kani=[('c04', 'dev'), ('c04', 'rel*')]),
 'C05': P('The number of items, the point at which a non-fused iterator resumes, and the claimed size hint are symbolic in Kani; in symx elements are of an arbitrary type.',
          'symx: lengths 0,1,2,3,5,8,32 (thorough 4,6,7,9,16,31) with 0..N+3 items and size hints honest, too small, too large and absent; arrays (whose type must be [T; N]) and index functions for ' + ALL_V + '; Kani: lengths 0..4 with symbolic counts and size hints; dev and release profile',
          'iterators that themselves panic (C01)', sym=['dev', 'rel'], kani=[('c05', 'dev'), ('c05', 'rel')]),
 'C06': P('Run-time indices are arbitrary usize values: in-range ones must reach the addressed element and only it, out-of-range ones must panic (the harness proves that no return is reachable), with and without debug assertions. '
          'Whether a compile-time index is accepted is decided by the real trait solver of rustc: probes ask whether `Vector: Index<I>` (`Matrix: Index<(I, J)>`) holds for a type and the answers enter the query as constants.',
          'vectors of lengths 0..5, 9, 32 and matrices 0x2 2x0 1x1 2x2 2x3 3x2 3x1 (thorough 4x4); every usize index (pair); every in-range type-level index of those, out-of-range ones up to N+2 and far beyond; columns by number of 2x2 3x1 1x3; elements u8, all values; dev and release profile',
          'larger shapes', kani=[('c06p', 'dev'), ('c06', 'dev'), ('c06', 'rel*')]),
 'C07': P('Elements belong to an arbitrary type: each operation is an uninterpreted function of its two operands, so exactly the stated term at each position is the only provable answer; a second element type covers mixed operands.',
          ALL_V + ' and matrix ' + SHAPES + ' (thorough also ' + WIDE + '); all operand forms, also an operand combined with itself; all element values',
          'other matrix shapes', sym=['dev', 'rel']),
 'C08': P('Elements are upper triangular 2x2 real matrices, a non-commutative ring, with symbolic entries; equality with the definition is proved as polynomial identities.',
          'matrix products of 23 shapes up to 5x5x5 plus 1x32x1, 32x1x2, 2x1x32, 2x17x2, 7x5x6 (thorough up to 10x10x10 and 3x32x4); *= up to 6x6 (thorough 10x10); matrix*vector on 18 shapes; dot for every length 0..32; cross; dot, cross and product of a value with itself',
          'other shapes; rounding of floating-point elements', sym=['dev', 'rel']),
 'C09': P('Zero and identity over an arbitrary type, the reals (where elements may cancel) and over non-commuting real triangular matrices; powers over the reals.',
          'zero: ' + ALL_V + ', matrix ' + SHAPES + ' ' + WIDE + '; identity: 0x0..7x7; pow: 1x1 e<33, 2x2 e<7 (thorough 13), 3x3 e<4 (thorough 7), 4x4 e<4, and [[1,x],[0,1]] e<=200 and 12 exponents up to 1025, [[1,0],[3,1]] 6 exponents up to 131073',
          'larger exponents with fully symbolic bases', sym=['dev', 'rel']),
 'C10': P('Elements are distinct symbolic constants of an arbitrary type.',
          ALL_V + '; matrix ' + SHAPES + ' ' + WIDE + '; in-place transposition 0..9, 16, 17, 31, 32; diag on 21 shapes; flat vectors on 27 shapes',
          'other shapes', sym=['dev', 'rel']),
 'C11': P('Entries are symbolic elements of a field (reals); every zero/non-zero pivot pattern is a path; the result is proved equal to the Leibniz sum by exact rational-function arithmetic whose every step is itself a solver-checked lemma.',
          'sizes 1..4 (thorough 5), all real matrices; size 5, 6, 7 (thorough 8, 12): constant matrices, zeros included, with one or two free real entries at every position the harness lists', 'size 5 in quick and larger ones with more free entries; floating-point rounding; fields of positive characteristic (the identities proved have integer coefficients, the path conditions are over the reals)', sym=['dev', 'rel']),
 'C12': P('As C11 for the signed minors; positions outside are arbitrary usize pairs in Kani.',
          'sizes 2..5, all positions, all real matrices; larger: as C11; out-of-range positions: every usize pair for sizes 2, 3 (dev and release) and 4 (release; dev in thorough) in Kani, 14 representative values per coordinate for sizes 2..5 natively (symx)',
          'larger sizes', sym=['dev', 'rel'], kani=[('c12', 'dev'), ('c12', 'rel')]),
 'C13': P('Entries are symbolic elements of a field (reals); every zero/non-zero pivot pattern is a path; A*B = B*A = 1 and "none only if the determinant is 0" are proved on every path.',
          'sizes 1..4, all real matrices; size 5, 6, 7 (thorough 8): as C11', 'size 5 and more with more free entries; floating-point rounding', sym=['dev', 'rel']),
 'C14': P('Equality and approximate equality of elements are arbitrary predicates, lawful or not; whether a type claims Eq is asked of the compiler\'s trait solver.',
          'equality: ' + ALL_V + ', matrix ' + SHAPES + ' ' + WIDE + '; approximate equality: every predicate value on shapes up to 2x5/3x2 (thorough 3x3, 4x2, 3x4), at most one differing pair on all shapes (thorough also the wide ones); twelve ulps tolerances from 0 to the largest; every value compared with itself too',
          'other shapes', sym=['dev', 'rel']),
 'C15': P('Elements carry symbolic real ranks, so every total preorder with ties is a valuation of them.',
          'fully free ranks up to 5 elements; two free ranks at any two places among equals for longer ones (harness list); clamp on ' + ALL_V,
          'several distinct extreme candidates in long vectors', sym=['dev', 'rel']),
 'C16': P('Elements and callback answers are symbolic; calls are recorded and compared with the row-major order.',
          ALL_V + '; matrix ' + SHAPES + ' ' + WIDE, 'other shapes', sym=['dev', 'rel']),
 'C17': P('Exact real arithmetic; the square root is axiomatised (r >= 0, r*r = x).',
          ALL_V + '; matrix ' + SHAPES + ' ' + WIDE + '; normalized 1..5 (thorough 6,8,16,32)', 'floating-point rounding', sym=['dev', 'rel']),
 'C18': P('A free variable says which write to the sink fails, another which element\'s own formatting fails; all of them are explored.',
          'vector lengths 0..5, 8, 16, 32 (thorough all); matrix ' + SHAPES + ' and wide/empty ones; element texts are fixed per position (some empty, some with separators)',
          'the {:#?} alternate form', sym=['dev', 'rel']),
 'C19': P('How many lines each element shows, how wide each is, its character class (ASCII, two-byte, double width) and whether it ends with a line feed are free solver variables decided when the code first shows the element; every feasible layout is a path whose output is parsed back and compared with the elements.',
          'shapes 0x0 0x3 3x0 1x0 1x1 (3 lines, width 3, 3 classes) 1x2 2x1 (2 lines, width 3, 2 classes) 1x3 3x1 2x2 1x4 4x1 3x2 2x3 (1-2 lines, width 1-2); thorough deeper; with the unicode_width feature (dev and release) and without it (every character one column)',
          'texts with tabs, control or combining characters; the characters of a text are concrete on each path (Kani could not decide String/unicode-width code within 500 s for 1x1)', sym=['dev', 'rel', 'dev-nouw']),
 'C20': P('Literals of symbolic values written through the real macros; alias element types and dimensions are checked by storing symbolic f32/f64 bit patterns. A literal the compiler rejects is reported.',
          'vector literals of 0..8, 16, 17, 32 elements, matrix literals up to 4x4, 1x5, 5x1 and empty ones; every alias of the prelude', 'longer literals (macro recursion limit)',
          kani=[('c20', 'dev'), ('c20', 'rel*'), ('c20m', 'dev')], must_compile=['c20m']),
 'C21': P('In Kani the view, the place and the value of each write are symbolic and all views are read back; the slice, by address, is what the views must agree on. In symx elements belong to an arbitrary type.',
          'Kani: lengths 0,1,2,3,5 (two writes) 9, 32 (one write), matrices 1x1 2x2 2x3 3x1 1x4 (two writes; thorough 4x4, one), any view, place and u8 value; symx: ' + ALL_V + ' and matrix ' + SHAPES + ' ' + WIDE + ' written completely through each mutable view in turn, and one write at a free place through a free view for lengths 1 2 3 4 7 8 16 31 32 (thorough all) and matrix ' + SHAPES + '; dev and release profile',
          'longer histories of writes', sym=['dev', 'rel'], kani=[('c21', 'dev'), ('c21', 'rel*')]),
}

NOT_APPLICABLE = {
 'C22': 'no execution exists to encode: whether an ill-shaped expression is accepted is decided by rustc\'s type checker over where-clauses, before any code that could be executed symbolically exists; asking the compiler about listed shapes would be enumeration, not a verdict over all values within a bound. (Out-of-range compile-time indices, which complete the index property, are probed in C06.)',
}
