"""Which symbolic runs decide which property: harness, parameters, bounds."""
def J(h, *p, **k): return dict(h=h, p=list(p), **k)
HASH = 'the hash functions: each item has an arbitrary pair of 64-bit hash values (so every pair of hash functions is covered); std SipHash itself is outside'
INTDIV = 'rounding of a quotient of an integer below 2^34 in magnitude by an integer constant up to 2^16 is encoded as integer division (the double-precision quotient is exact enough for that)'
PROPS = {}
def P(pid, bounds, jobs, *assumptions): PROPS[pid] = dict(bounds=bounds, jobs=jobs, assumptions=list(assumptions))

P('C01', 'filters of 16 bits / k=2, 13 bits / k=2 (and 24/k=3 and longer histories in the thorough tier); 2-3 insertions of arbitrary items, one arbitrary query item, all hash values 64 bits',
  [J('h_c01', 16, 8, 0, 3), J('h_c01', 13, 6, 0, 2), J('h_c01', 8, 2, 0, 2), J('h_c01', 16, 8, 0, 4, deep=1), J('h_c01', 64, 20, 0, 3, deep=1)] + [J('h_c02_wide', *p) for p in ((192, 100, 10, 1), (192, 200, 10, 2), (100, 100, 9, 2), (65, 65, 9, 2), (257, 300, 11, 2), (1000, 1000, 12, 1), (4096, 4096, 0, 1), (1, 1, 64, 2), (7, 10, 6, 2))], HASH)
P('C02', 'filters of 16 bits / k=2; two rounds of 2-3 arbitrary insertions around a clear; 64-bit hashes; estimated_fpp for 2 insertions into 8 bits, k=2',
  [J('h_c02', 16, 8, 0, 3, cost=9), J('h_c02', 13, 6, 10, 2), J('h_c02_fpp', 8, 4, 0, 2), J('h_c02', 32, 12, 0, 3, deep=1)] + [J('h_c02_wide', *p) for p in ((192, 100, 10, 1), (192, 200, 10, 2), (100, 100, 9, 2), (65, 65, 9, 2), (257, 300, 11, 2), (1000, 1000, 12, 1), (4096, 4096, 0, 1), (1, 1, 64, 2), (7, 10, 6, 2))] + [J('h_c02_fpp', 32, 1, 0, 1), J('h_c02_fpp', 64, 2, 0, 1), J('h_c02_wide', 192, 100, 0, 1, cost=5), J('h_c02_wide', 1000, 1000, 0, 1, cost=5)], HASH)
P('C03', 'partitions of 8 bits x 3 and 4 bits x 2, non-power-of-two 5 x 3 with 8-bit hashes; two rounds of 2-3 arbitrary insertions around a clear',
  [J('h_c03', 8, 125, 0, 3), J('h_c03', 4, 300, 0, 2), J('h_c03', 5, 125, 8, 2), J('h_c03_fpp', 4, 300, 0, 2)] + [J('h_c03_wide', *p) for p in ((96, 250, 10, 1), (65, 250, 9, 2), (100, 250, 9, 2), (300, 500, 11, 2), (300, 125, 11, 1), (1000, 500, 12, 1), (256, 250, 0, 2))] + [J('h_c03_fpp', 16, 5, 0, 1), J('h_c03_fpp', 100, 20, 0, 1)], HASH)
P('C04', 'initial lengths 8, 2 and 3; growth 2 and 1.5; 3-4 arbitrary insertions with up to two growth steps',
  [J('h_c04', 8, 100, 200, 50, 0, 3, reach=[1, 2]), J('h_c04', 2, 400, 200, 50, 0, 4, reach=[1, 2, 3]), J('h_c04', 3, 300, 150, 90, 8, 3, reach=[1, 2, 3])], HASH)
FP = ['--fp']
P('C05', 'partitions of 4, 8 and 16 bits (non-power-of-two 5 with 8-bit hashes), k from 1 to 4; 2-3 arbitrary insertions, every random draw arbitrary; RLBS with bit-precise floating point',
  [J('h_c05', 0, 8, 500, 0, 3), J('h_c05', 1, 8, 500, 0, 3), J('h_c05', 0, 16, 200, 0, 3), J('h_c05', 1, 16, 200, 0, 3), J('h_c05', 0, 5, 300, 8, 3), J('h_c05', 1, 5, 300, 8, 3),
   J('h_c05', 2, 4, 500, 0, 2, opts=FP), J('h_c05', 2, 5, 500, 8, 2, opts=FP), J('h_c05', 2, 4, 500, 0, 3, opts=FP, cost=9), J('h_c05', 2, 4, 500, 0, 4, opts=FP, deep=1), J('h_c05', 0, 64, 50, 0, 4, deep=1), J('h_c05', 1, 64, 50, 0, 4, deep=1)] + [J('h_c05', *p, opts=FP) for p in ((0, 192, 500, 10, 2), (1, 192, 500, 10, 2), (2, 192, 500, 10, 1), (2, 65, 500, 9, 2), (0, 1000, 300, 12, 1))],
  HASH, 'the random generator: every draw is an arbitrary value of its range')
P('C06', 'partitions of 4, 5 and 8 bits, k = 1 and 2; 2-4 arbitrary insertions, then clear and as many again; every random draw arbitrary; RLBS with bit-precise floating point',
  [J('h_c06', 0, 4, 1000, 0, 3, 1), J('h_c06', 1, 4, 1000, 0, 3, 1), J('h_c06', 0, 8, 500, 0, 3, 1), J('h_c06', 1, 8, 500, 0, 3, 1), J('h_c06', 0, 5, 500, 8, 2, 1), J('h_c06', 1, 5, 500, 8, 2, 1),
   J('h_c06', 2, 4, 500, 0, 2, 1, opts=FP), J('h_c06', 2, 4, 1000, 0, 4, 1, opts=FP, cost=9), J('h_c06', 0, 8, 500, 0, 4, 1, deep=1), J('h_c06', 1, 8, 500, 0, 4, 1, deep=1), J('h_c06', 2, 4, 500, 0, 4, 1, opts=FP, deep=1)],
  HASH, 'the random generator: every draw is an arbitrary value of its range')
KICK = 'MAX_KICKS is 3 (512 in the shipped build; cfg hook) so that the whole kick loop is unrolled; histories with more than one rehash are outside'
P('C07', '2-4 buckets of 1-2 entries, 3-, 4- and 8-bit fingerprints; 3-4 arbitrary insertions (kicks and overflow reached), 1-2 removals and re-insertions; at most one zero-fingerprint rehash',
  [J('h_c07', 2, 8, 1, 3, 1, 0, reach=[1, 2]), J('h_c07', 4, 4, 2, 4, 0, 0, reach=[1]), J('h_c07', 2, 3, 1, 4, 0, 0, reach=[1, 2]), J('h_c07', 2, 3, 1, 3, 1, 1, reach=[1, 2], cost=9), J('h_c07', 2, 3, 1, 3, 2, 0, reach=[1, 2]), J('h_c07', 4, 4, 2, 5, 0, 0, deep=1), J('h_c07', 2, 3, 1, 4, 0, 1, reach=[1, 2], deep=1)],
  HASH, 'the random generator: every draw is an arbitrary value of its range', KICK)
P('C08', '2 buckets of 1 entry, 3- and 8-bit fingerprints; 2 arbitrary insertions, then one arbitrary insert-or-remove, then clear; at most one zero-fingerprint rehash',
  [J('h_c08', 2, 8, 1, 2, 1, 0, reach=[1, 2, 3]), J('h_c08', 2, 3, 1, 2, 1, 1, reach=[1, 2, 3], cost=9), J('h_c08', 2, 3, 1, 3, 1, 0, reach=[1, 2, 3], cost=9), J('h_c08', 4, 4, 2, 2, 1, 0, reach=[1, 2]), J('h_c08', 2, 8, 1, 2, 2, 0, deep=1)],
  HASH, 'the random generator: every draw is an arbitrary value of its range', KICK)
P('C09', 'every item count below 2^32, 4 entries per bucket (2 and 1 too), all four constructors; capacity, and its stability under 3 operations',
  [J('h_c09', 32, 4, 0), J('h_c09', 32, 5, 1, 13), J('h_c09', 32, 4, 2, 10), J('h_c09', 32, 1, 3, 8, 100), J('h_c09', 32, 2, 1, 7), J('h_c09_ops', 2, 4, 1, 3, 0, 0), J('h_c09_ops', 3, 8, 2, 3, 0, 0)], HASH, KICK)
P('C10', 'initial item counts 1, 2 and 4, growth ratios 1, 1.1, 1.6 and 2.5; 2-4 arbitrary insertions through up to two growth steps, then one removal and clear',
  [J('h_c10', 2, 900, 1, 100, 100, 3, 1, reach=[1, 2]), J('h_c10', 2, 900, 1, 100, 100, 4, 1, reach=[1, 2, 3]), J('h_c10', 2, 500, 2, 100, 90, 4, 1, reach=[1, 2, 3]), J('h_c10', 4, 500, 2, 100, 90, 4, 1, reach=[1, 2], cost=9), J('h_c10', 1, 900, 1, 100, 100, 2, 1, reach=[1, 2, 3]), J('h_c10', 2, 500, 2, 110, 90, 4, 1, reach=[1, 2]), J('h_c10', 1, 900, 1, 160, 100, 3, 1, reach=[1, 2, 3]), J('h_c10', 1, 900, 1, 250, 90, 2, 1, reach=[1, 2]), J('h_c10', 2, 900, 1, 150, 100, 3, 1, reach=[1, 2], deep=1)], HASH, KICK)
P('C11', 'tables of 2^3 slots with 2..4 stored fingerprints (2^1 slots: full), one arbitrary operation from every canonical table; remainders symbolic',
  [J('h_c11_contains', 3, 3, 6), J('h_c11_insert', 3, 20, 4), J('h_c11_insert', 3, 2, 5, reach=[1, 2]), J('h_c11_insert', 2, 3, 4, reach=[1]), J('h_c11_remove', 3, 2, 5), J('h_c11_remove', 3, 20, 5), J('h_c11_remove', 1, 60, 2), J('h_c11_insert', 3, 2, 6, deep=1), J('h_c11_insert', 3, 20, 7, deep=1), J('h_c11_remove', 3, 2, 7, deep=1), J('h_c11_remove', 3, 2, 8, deep=1), J('h_c11_contains', 3, 20, 8, deep=1), J('h_c11_remove', 4, 3, 5, deep=1)], HASH)

P('C12', 'tables of 2^2 and 2^3 slots: one arbitrary insert, remove or clear from every canonical table of 3-4 fingerprints, and histories of 2-3 inserts then 1-2 inserts or removes from empty; remainders of 2, 10, 20 and 61 bits symbolic',
  [J('h_c12_step', 3, 2, 4, 0, reach=[1, 2]), J('h_c12_step', 3, 20, 4, 1, reach=[1, 2]), J('h_c12_step', 3, 20, 4, 2), J('h_c12_step', 2, 61, 3, 0, reach=[1, 2]), J('h_c12_step', 2, 61, 4, 1, reach=[1, 2]), J('h_c12_hist', 2, 2, 3, 1, reach=[1, 2, 3]), J('h_c12_hist', 2, 10, 2, 2, reach=[1, 2, 3]),
   J('h_c12_step', 3, 2, 6, 1, deep=1), J('h_c12_step', 3, 20, 7, 0, deep=1), J('h_c12_hist', 2, 2, 4, 2, deep=1)], HASH)
P('C13', 'acceptance: every pair of u8 values (accepted pairs with more than 28 quotient bits excluded: the table does not fit in memory); behaviour: every remainder size 1..61 with 1, 2 and 3 quotient bits, two arbitrary inserts, one arbitrary query, one removal',
  [J('h_c13'), J('h_c13_width', 1, 1, 30), J('h_c13_width', 1, 31, 61), J('h_c13_width', 2, 1, 30), J('h_c13_width', 2, 31, 61), J('h_c13_width', 3, 1, 15), J('h_c13_width', 3, 16, 30), J('h_c13_width', 3, 31, 45), J('h_c13_width', 3, 46, 61), J('h_c11_insert', 2, 61, 3, reach=[1, 2]), J('h_c11_remove', 2, 61, 3, reach=[1, 2]), J('h_c11_insert', 2, 1, 4, reach=[1]), J('h_c11_remove', 2, 1, 4, reach=[1, 2])], HASH)
P('C14', '2-3 rows, 2-4 columns (three columns with 8-bit hashes); 1-2 arbitrary insertions of 32-bit counts, arbitrary query item',
  [J('h_c14', 2, 2, 0, 2, 32, 0), J('h_c14', 3, 2, 0, 2, 32, 0), J('h_c14', 3, 4, 0, 1, 32, 0), J('h_c14', 2, 3, 8, 2, 32, 2), J('h_c14', 2, 3, 8, 2, 32, 0, deep=1), J('h_c14', 3, 100, 9, 1, 61, 2), J('h_c14', 6, 64, 7, 1, 32, 2), J('h_c14', 5, 64, 0, 1, 32, 2), J('h_c14', 2, 16, 0, 1, 32, 2), J('h_c14', 3, 1, 0, 2, 32, 2), J('h_c14', 2, 2, 0, 2, 61, 0), J('h_c14', 2, 16, 0, 2, 32, 2, deep=1), J('h_c14', 1, 2, 0, 3, 32, 0), J('h_c14', 2, 2, 0, 3, 32, 0), J('h_c14', 4, 2, 0, 3, 32, 0, deep=1), J('h_c14', 3, 3, 8, 2, 32, 0, deep=1)], HASH)
P('C15', '2-3 rows, 2-4 columns; 2 items with 32-bit signed counts (2-bit counts where the mean of three rows is taken), against reordered, split and cancelled histories, clear, one arbitrary query item',
  [J('h_c15_min', 2, 2, 0, 2, 32, 0), J('h_c15_min', 3, 2, 0, 2, 32, 0), J('h_c15_mean', 2, 2, 0, 2, 32, 0, opts=FP), J('h_c15_mean', 3, 2, 0, 2, 2, 1), J('h_c15_median', 2, 2, 0, 2, 32, 0, opts=FP), J('h_c15_median', 3, 2, 0, 2, 32, 0, opts=FP), J('h_c15_min', 2, 2, 0, 2, 62, 0, cost=9), J('h_c15_mean', 2, 2, 0, 2, 45, 0, opts=FP, deep=1), J('h_c15_min', 2, 4, 0, 1, 32, 0, deep=1), J('h_c15_min', 2, 3, 4, 2, 32, 0, deep=1)], HASH, INTDIV)
P('C16', 'rows 2 and 3 (4 and 5 with 3-bit counts), 2 columns (4 with one or two small counts); 2 arbitrary insertions of 32-bit signed counts, arbitrary query item',
  [J('h_c16_mean', 2, 2, 0, 2, 32, 0, opts=FP), J('h_c16_mean', 3, 2, 0, 2, 3, 1), J('h_c16_mean', 5, 2, 0, 2, 3, 1), J('h_c16_median', 2, 2, 0, 2, 32, 0, opts=FP), J('h_c16_median', 3, 2, 0, 2, 32, 0, opts=FP), J('h_c16_median', 4, 2, 0, 2, 3, 1), J('h_c16_median', 2, 4, 0, 1, 8, 0, opts=FP), J('h_c16_median', 2, 4, 0, 2, 2, 1, cost=9), J('h_c16_mean', 2, 16, 0, 1, 32, 2, opts=FP), J('h_c16_median', 3, 100, 8, 1, 8, 2, opts=FP), J('h_c16_median', 3, 100, 8, 1, 16, 2, opts=FP, cost=9), J('h_c16_median', 2, 3, 4, 2, 2, 1, deep=1)], HASH, INTDIV)
P('C17', 'precisions 1 and 2 (merge mismatches: 1 to 3); up to 3-4 arbitrary insertions spread over two or three counters, every 64-bit hash; len compared for hashes of few bits',
  [J('h_c17', 1, 2, 2, 0), J('h_c17', 2, 2, 1, 0), J('h_c17', 2, 1, 1, 4), J('h_c17', 1, 1, 2, 4), J('h_c17', 3, 1, 1, 2), J('h_c17', 4, 1, 1, 5, deep=1), J('h_c17_assoc', 1, 0, 0, 0), J('h_c17_assoc', 2, 0, 0, 0), J('h_c17_mismatch'), J('h_c17', 2, 2, 2, 0, deep=1), J('h_c17', 3, 2, 2, 0, deep=1), J('h_c17_assoc', 4, 0, 0, 0, deep=1)], HASH)
P('C18', 'precisions 1, 2, 4, 6 and 7; 1-3 arbitrary insertions of every 64-bit hash (20 bits above the index at precision 7)',
  [J('h_c18', 1, 3, 0, 0), J('h_c18', 2, 2, 0, 0), J('h_c18', 4, 1, 0, 0, cost=9), J('h_c18', 1, 2, 63, 1), J('h_c18', 2, 2, 62, 1), J('h_c18', 4, 1, 60, 1), J('h_c18', 4, 2, 8, 1), J('h_c18', 6, 1, 58, 1), J('h_c18', 1, 3, 20, 1), J('h_c18', 10, 1, 54, 1, deep=1), J('h_c18', 4, 2, 24, 1, deep=1), J('h_c18', 7, 2, 0, 0, deep=1)], HASH)
P('C19', 'precisions 1, 2, 4-7, 10 and 12, from empty and from counters with many registers filled; 1-4 further arbitrary insertions, every rank; floating point evaluated concretely per case of (registers, ranks)',
  [J('h_c19', 1, 0, 0, 2, 63, 0, reach=[1, 2, 3]), J('h_c19', 2, 0, 0, 2, 62, 0, reach=[1, 2]), J('h_c19', 2, 0, 0, 4, 5, 1, reach=[1, 2, 3]), J('h_c19', 4, 14, 10, 2, 20, 1, reach=[1, 3]), J('h_c19', 4, 2, 58, 1, 60, 0), J('h_c19', 4, 14, 10, 2, 6, 0), J('h_c19', 5, 26, 20, 2, 8, 1), J('h_c19', 5, 31, 3, 1, 6, 0), J('h_c19', 6, 56, 20, 2, 8, 1), J('h_c19', 6, 40, 2, 1, 6, 0, reach=[1, 2]), J('h_c19', 7, 110, 40, 2, 8, 1, reach=[1, 3]), J('h_c19', 10, 700, 2, 1, 3, 1, deep=1), J('h_c19', 8, 250, 9, 1, 12, 0, deep=1)], HASH)
P('C20', '2-6 hash functions, 1-4 arbitrary items per side with arbitrary 64-bit hash pairs; similarity of arbitrary signatures of up to 4 entries, equal or different lengths',
  [J('h_c20', 4, 2, 2), J('h_c20', 3, 3, 1), J('h_c20', 2, 4, 2), J('h_c20', 6, 3, 2, cost=9), J('h_c20_cmp', 4), J('h_c25_min', 16), J('h_c20_cmp', 8, deep=1), J('h_c20', 8, 2, 2, deep=1), J('h_c20', 3, 5, 2, deep=1)], HASH)
P('C21', '1 to 6 items with arbitrary 64-bit hashes', [J('h_c21', n) for n in (1, 2, 3, 4, 5, 6, 7)] + [J('h_c21_many', 2, 130), J('h_c21_many', 3, 260), J('h_c21_many', 2, 1100, deep=1)] + [J('h_c21', 8, deep=1), J('h_c21', 9, deep=1)], HASH)
P('C22', '1-6 inputs whose hashes vary in 1-4 positions each (three adjacent ones at every position, so that every rotation is the only one to bring some pair together, and spread ones), windows 2, 3, 5 and arbitrary; arbitrary window with 0-2 inputs of 0-2 items',
  [J('h_c22', 3, 2, 3, 62, 1, 1, reach=[1, 2, 3]), J('h_c22', 3, 0, 2, 62, 1, 1, reach=[1, 2, 3]), J('h_c22', 4, 2, 2, 10, 30, 1, reach=[1, 2, 3]), J('h_c22', 4, 3, 2, 5, 40, 1, reach=[1, 2, 3]), J('h_c22', 5, 3, 1, 5, 1, 1, reach=[1, 2, 3]), J('h_c22', 6, 2, 1, 5, 1, 1, reach=[1, 2, 3]), J('h_c22', 4, 5, 2, 7, 33, 1, reach=[1, 2]), J('h_c22', 3, 3, 3, 61, 1, 1, reach=[1, 2]), J('h_c22', 3, 2, 4, 0, 16, 1, reach=[1, 2, 3]), J('h_c22', 4, 0, 2, 10, 30, 1, reach=[1, 2, 3]) ] + [J('h_c22', 3, 2, 3, k, 1, 8, reach=[1, 2, 3], cost=9) for k in range(0, 64, 8)] + [J('h_c22_window'),
   J('h_c22', 5, 2, 2, 7, 33, 1, deep=1), J('h_c22', 4, 2, 3, 3, 21, 1, deep=1), J('h_c22', 6, 3, 1, 63, 1, 1, deep=1)], HASH, 'the iteration order of std HashSet: its random keys are fixed in the symbolic run; nothing asserted depends on the order')
P('C23', '0 to 8 arbitrary tokens, every positive 64-bit shingle size', [J('h_c23', n) for n in (0, 1, 2, 4, 6, 8)] + [J('h_c23', 12, deep=1)])
P('C24', 'every combination of up to 4 and 3 items (all equality patterns), arbitrary values; the hash of every item equal, so that only equality can tell items apart', [J('h_c24', 1, 0), J('h_c24', 0, 2), J('h_c24', 2, 2, reach=[1, 2, 3]), J('h_c24', 3, 2, reach=[1, 2, 3]), J('h_c24', 3, 3, reach=[1, 2, 3]), J('h_c24', 4, 3, reach=[1, 2, 3]), J('h_c24', 4, 4, deep=1)])
P('C25', 'the first 1000 elements of the sequence of any item (closed form compared for 64), MinHash of one item for 64 hash functions, SipHash-2-4 under arbitrary keys for messages of one and two words', [J('h_c25', 1000), J('h_c25_min', 64), J('h_c25_sip'), J('h_c25', 20000, deep=1)], HASH)
P('C28', 'bit vectors of 3, 5, 7-9, 16 and 17 bits with arbitrary contents built in four ways; one or two arbitrary operations with arbitrary arguments, all observers compared after each; equality of all pairs up to 9 bits; panics up to 11 bits with every 64-bit index',
  [J('h_c28', 5, 0, 1, 99), J('h_c28', 9, 1, 1, 99), J('h_c28', 16, 2, 1, 99), J('h_c28', 17, 3, 1, 99), J('h_c28', 3, 3, 2, 99), J('h_c28', 7, 2, 2, 99, cost=9), J('h_c28', 8, 0, 2, 3), J('h_c28', 8, 0, 2, 2), J('h_c28', 0, 1, 2, 99), J('h_c28_eq', 9, 0, 1), J('h_c28_eq', 9, 2, 3), J('h_c28_wide', 257, 0, 1), J('h_c28_wide', 300, 1, 1), J('h_c28_wide', 64, 0, 1), J('h_c28_wide', 65, 1, 2, cost=9), J('h_c28_wide', 520, 1, 1, deep=1), J('h_c28_new', 20), J('h_c28_panic'), J('h_c28', 9, 3, 2, 99, deep=1), J('h_c28', 8, 2, 2, 99, deep=1), J('h_c28', 2, 0, 3, 99, deep=1), J('h_c28', 33, 0, 1, 99, deep=1)])
P('C29', 'every width 1 to 64, with one or two elements beyond the first word boundary; one to three arbitrary operations with arbitrary values; for widths up to 12 only the first and last elements are arbitrary',
  [J('h_c29', 1, 3, 2, 0, 1, 99), J('h_c29', 1, 3, 2, 1, 1, 99), J('h_c29', 4, 8, 2, 0, 1, 99), J('h_c29', 9, 16, 2, 1, 1, 99), J('h_c29', 17, 31, 2, 0, 1, 99), J('h_c29', 32, 64, 2, 1, 1, 99), J('h_c29', 13, 13, 2, 0, 2, 99), J('h_c29', 33, 34, 1, 0, 2, 99), J('h_c29', 63, 64, 2, 0, 2, 99), J('h_c29', 5, 5, 1, 1, 2, 99, cost=9), J('h_c29_wide', 7, 300, 0, 1), J('h_c29_wide', 33, 70, 1, 1), J('h_c29_wide', 64, 300, 0, 1), J('h_c29_wide', 3, 600, 1, 1), J('h_c29_panic'), J('h_c29', 14, 31, 2, 0, 2, 99, deep=1), J('h_c29', 32, 64, 2, 0, 2, 99, deep=1), J('h_c29', 64, 64, 2, 0, 3, 99, deep=1)])
P('C26', 'every collection at small sizes: 1-3 arbitrary insertions (and one arbitrary operation), then a serialized copy and one arbitrary further operation on both with the same random draws; every observation and the whole serialized state compared; HyperLogLog hashes of 4 bits, ScalableCuckoo items of three fingerprints', [
   J('h_c26', 0, 16, 4, 0, 1, 0, 1, cost=9),
   J('h_c26', 0, 8, 2, 0, 2, 0, 1, deep=1),
   J('h_c26', 1, 8, 300, 0, 1, 1, 1),
   J('h_c26', 2, 4, 400, 0, 3, 1, 1, cost=9),
   J('h_c26', 3, 4, 500, 0, 1, 0, 1, cost=3),
   J('h_c26', 3, 4, 500, 0, 2, 0, 1, deep=1),
   J('h_c26', 4, 4, 500, 0, 1, 0, 1, cost=3),
   J('h_c26', 4, 4, 500, 0, 2, 0, 1, deep=1),
   J('h_c26', 5, 2, 500, 0, 1, 0, 1, opts=FP, cost=3),
   J('h_c26', 5, 2, 500, 0, 2, 0, 1, opts=FP, deep=1),
   J('h_c26', 6, 2, 3, 1, 2, 0, 1),
   J('h_c26', 6, 2, 2, 1, 3, 0, 1, deep=1),
   J('h_c26', 7, 1, 900, 1, 1, 0, 1),
   J('h_c26', 7, 2, 900, 1, 1, 1, 1, cost=9),
   J('h_c26', 8, 2, 1, 0, 1, 1, 1),
   J('h_c26', 8, 2, 20, 0, 2, 0, 1),
   J('h_c26', 9, 2, 2, 0, 1, 0, 1),
   J('h_c26', 10, 3, 2, 0, 1, 0, 1),
   J('h_c26', 11, 2, 0, 0, 1, 0, 1, cost=4),
   J('h_c26_misc', 4, 11, 7)], HASH, 'the serialization format of the harness is a flat sequence of 64-bit words (a serde Serializer/Deserializer of its own): a format as such is outside', KICK)
P('C27', 'every collection at small sizes: 1-3 arbitrary insertions (and one arbitrary operation), then a clone, a clone of the clone and clone_from; one arbitrary operation on one of them, or the same one on both; every observation and the whole serialized state compared; HyperLogLog hashes of 4 bits, ScalableCuckoo items of three fingerprints; equality of Bloom and cuckoo filters', [
   J('h_c27', 0, 16, 4, 0, 1, 0, 1, 0, cost=9),
   J('h_c27', 0, 16, 4, 0, 1, 0, 1, 1, cost=9),
   J('h_c27', 0, 8, 2, 0, 2, 0, 1, 0, deep=1),
   J('h_c27', 0, 8, 2, 0, 2, 0, 1, 1, deep=1),
   J('h_c27', 1, 8, 300, 0, 1, 1, 1, 0),
   J('h_c27', 1, 8, 300, 0, 1, 1, 1, 1),
   J('h_c27', 2, 4, 400, 0, 3, 1, 1, 0, cost=9),
   J('h_c27', 2, 4, 400, 0, 3, 1, 1, 1, cost=9),
   J('h_c27', 3, 4, 500, 0, 1, 0, 1, 0, cost=3),
   J('h_c27', 3, 4, 500, 0, 1, 0, 1, 1, cost=3),
   J('h_c27', 3, 4, 500, 0, 2, 0, 1, 0, deep=1),
   J('h_c27', 3, 4, 500, 0, 2, 0, 1, 1, deep=1),
   J('h_c27', 4, 4, 500, 0, 1, 0, 1, 0, cost=3),
   J('h_c27', 4, 4, 500, 0, 1, 0, 1, 1, cost=3),
   J('h_c27', 4, 4, 500, 0, 2, 0, 1, 0, deep=1),
   J('h_c27', 4, 4, 500, 0, 2, 0, 1, 1, deep=1),
   J('h_c27', 5, 2, 500, 0, 1, 0, 1, 0, opts=FP, cost=3),
   J('h_c27', 5, 2, 500, 0, 1, 0, 1, 1, opts=FP, cost=3),
   J('h_c27', 5, 2, 500, 0, 2, 0, 1, 0, opts=FP, deep=1),
   J('h_c27', 5, 2, 500, 0, 2, 0, 1, 1, opts=FP, deep=1),
   J('h_c27', 6, 2, 3, 1, 2, 0, 1, 0),
   J('h_c27', 6, 2, 3, 1, 2, 0, 1, 1),
   J('h_c27', 6, 2, 2, 1, 3, 0, 1, 0, deep=1),
   J('h_c27', 6, 2, 2, 1, 3, 0, 1, 1, deep=1),
   J('h_c27', 7, 1, 900, 1, 1, 0, 1, 0),
   J('h_c27', 7, 1, 900, 1, 1, 0, 1, 1),
   J('h_c27', 7, 2, 900, 1, 1, 1, 1, 0, cost=9),
   J('h_c27', 7, 2, 900, 1, 1, 1, 1, 1, cost=9),
   J('h_c27', 8, 2, 1, 0, 1, 1, 1, 0),
   J('h_c27', 8, 2, 1, 0, 1, 1, 1, 1),
   J('h_c27', 8, 2, 20, 0, 2, 0, 1, 0),
   J('h_c27', 8, 2, 20, 0, 2, 0, 1, 1),
   J('h_c27', 9, 2, 2, 0, 1, 0, 1, 0),
   J('h_c27', 9, 2, 2, 0, 1, 0, 1, 1),
   J('h_c27', 10, 3, 2, 0, 1, 0, 1, 0),
   J('h_c27', 10, 3, 2, 0, 1, 0, 1, 1),
   J('h_c27', 11, 2, 0, 0, 1, 0, 1, 0, cost=4),
   J('h_c27', 11, 2, 0, 0, 1, 0, 1, 1, cost=4),
   J('h_c27_eq', 16, 8, 1, 1), J('h_c27_eq_cuckoo', 1, 4, 1, 3, reach=[1, 2]), J('h_c27_eq_cuckoo', 2, 4, 1, 3, reach=[1, 2], cost=9), J('h_c26_misc', 4, 11, 7)], HASH, KICK)

RL = ['--real']
REAL = 'double arithmetic is modelled over the reals with proven error bounds per operation (2^-52 relative; library functions ln, log2, exp, sqrt within 1-2 ulp); logarithms enter through true facts about ln at finitely many points, so a verdict holds for the real function; regions within rounding (relative 1e-9..1e-6) of a point where the model and the double evaluation disagree are excluded and counted (evidence real.slivers); checks carry a 1e-9 (estimated_fpp: 1e-6) relative tolerance'
def R(h, *p, **k): return J(h, *p, opts=RL, **k)
P('C30', 'every item count or bit count in 1..2^40 (RLBS: 1..2^9; quick 2^20, 2^6) and every real fpp in [1e-9, 1 - 1e-6] (quick [1e-6, 0.999]), all five fixed-size Bloom filters and all three BloomFilter constructors',
  [R('h_c30', 0, 40, 9, 6), R('h_c30', 1, 40), R('h_c30', 2, 40, 9, 6), R('h_c30_part', 0, 20, 6, 3, cost=3), R('h_c30_part', 1, 20, 6, 3), R('h_c30_dd', 0, 40, 9, 6), R('h_c30_dd', 1, 40, 9, 6), R('h_c30_dd', 2, 6, 6, 3), R('h_c30_dd', 2, 9, 6, 3, deep=1), R('h_c30_part', 0, 40, 9, 6, deep=1, cost=9), R('h_c30_part', 1, 40, 9, 6, deep=1, cost=9)], REAL)
P('C31', 'from_entries_per_index: entries per index 1..6 and 8 (thorough also 7, 16), every real fpp in [1e-6, 0.999] and a completely full table; from_fingerprint_bit_count: 2, 4, 8, 10, 12, 16, 20 bits, every real fpp in [1e-6 (10..20 bits: 1e-5, 1e-4), 0.999]; bucket count for every item count in 1..2^16',
  [R('h_c31_entries', e, 6, 3, cost=2) for e in (1, 2, 3, 4, 5, 6)] + [R('h_c31_entries', 8, 6, 3, cost=5), R('h_c31_entries', 1, 6, 6, deep=1), R('h_c31_entries', 7, 6, 3, deep=1), R('h_c31_entries', 16, 6, 3, deep=1)]
  + [R('h_c31_bits', b, lo, 999000000) for b, lo in ((2, 1000), (4, 1000), (8, 1000), (10, 10000), (12, 10000), (16, 10000), (20, 100000))]
  + [R('h_c31_cap', 0, 16, 1), R('h_c31_cap', 0, 16, 3), R('h_c31_cap', 0, 16, 4), R('h_c31_cap', 1, 16, 8), R('h_c31_cap', 1, 16, 10), R('h_c31_cap', 1, 16, 12)], REAL, HASH)
P('C32', 'every capacity in 1..2^10 and real fpp in [1e-3, 0.999] (thorough: 1..2^16, [1e-9, 1 - 1e-6]); estimated_fpp after filling filters of capacity 1, 4, 8 and 30, every real fpp in [1e-6, 0.999]; rejected arguments: every fpp in [-10, -1e-6] and [1, 10]',
  [R('h_c32', 10, 3, 3, 8, cost=3), R('h_c32', 8, 3, 3, 4, cost=3), R('h_c32', 4, 6, 3, 0, cost=3), R('h_c32_est', 1, 6, 3), R('h_c32_est', 4, 6, 3), R('h_c32_est', 8, 6, 3), R('h_c32_est', 30, 6, 3, cost=3), R('h_c32_domain', 0, reach=[]), R('h_c32_domain', 1, reach=[]), R('h_c32', 16, 9, 6, 0, deep=1, cost=9), R('h_c32_est', 4, 6, 6, deep=1)], REAL, HASH)
P('C33', 'every real epsilon in [1e-6, 0.999] and delta in [1e-9, 0.999]', [R('h_c33', 3, 3), R('h_c33', 6, 6, cost=3), R('h_c33', 6, 9, deep=1)], REAL)
P('C34', 'every real error probability in [0.0002, 0.999999] (1 to 2^25 registers); rejected arguments: every value in [-10, -1e-6] and [1, 10]', [R('h_c34', 2000, 999999), R('h_c34', 200, 2000), R('h_c34_domain', 0, reach=[]), R('h_c34_domain', 1, reach=[])], REAL)
P('C35', 'ScalableBloomFilter with initial lengths 32, 33, 35 and 64, growth 1.3, 1.5, 2 and 3, 2 to 4 levels, ScalableCuckooFilter with one-bucket levels of 1 and 2 entries, 2 to 4 levels; every real fpp and every real tightening ratio in the ranges of each job (fpp within [0.01, 0.3], ratio within [0.3, 0.95]; mostly one of the two varies), fixed items of distinct hashes',
  [R('h_c35_bloom', 64, 3000, 10, 10, 500, 950, 2), R('h_c35_bloom', 32, 1500, 100, 100, 300, 950, 3), R('h_c35_bloom', 33, 1500, 100, 100, 300, 950, 3), R('h_c35_bloom', 35, 1300, 200, 300, 500, 800, 2), R('h_c35_bloom', 32, 1500, 100, 300, 500, 950, 2), R('h_c35_bloom', 32, 1500, 200, 300, 500, 800, 3), R('h_c35_bloom', 32, 2000, 10, 300, 500, 500, 3, cost=3), R('h_c35_bloom', 32, 2000, 10, 300, 900, 900, 4, cost=9),
   R('h_c35_cuckoo', 1, 100, 100, 300, 950, 3), R('h_c35_cuckoo', 1, 50, 300, 500, 500, 3, cost=9), R('h_c35_cuckoo', 1, 10, 300, 500, 500, 3, deep=1), R('h_c35_cuckoo', 1, 10, 300, 900, 900, 4, deep=1), R('h_c35_cuckoo', 2, 10, 300, 500, 500, 3, deep=1)], REAL, HASH)
P('C36', 'all collections whose constructors draw their own keys. Sizes: every count in 1..2^20 (RLBS 2^6, cuckoo 2^16) and every real fpp or error in [0.01, 0.5] (from_fingerprint_bit_count: [0.15, 0.5]); whole state: fixed arguments. The drawn keys are arbitrary pairwise different 64-bit values',
  [R('h_c36', k, 6 if k == 7 else 20 if k < 9 else 16, 150 if k == 12 else 10, 500, 4) for k in range(18)]
  + [J('h_c36_state', k, 3 if k == 16 else 101, 300 if k == 19 else 200 if k == 12 else 10, 4 if k in (12, 16) else 3) for k in range(23)], REAL, 'equality of the drawn values of one constructor call is excluded (probability 2^-63)')
P('C37', 'partitions of 2 to 8 bits, k = 1 and 2; 1-3 arbitrary insertions, then one arbitrary new item under every combination of outcomes of its draws (f64 draws in bit_count cells); RLBS with bit-precise floating point',
  [J('h_c37', 0, 4, 1000, 0, 3), J('h_c37', 1, 4, 1000, 0, 3), J('h_c37', 0, 3, 500, 8, 2), J('h_c37', 1, 3, 500, 8, 2), J('h_c37', 0, 4, 500, 8, 2), J('h_c37', 1, 4, 500, 8, 2), J('h_c37', 0, 2, 500, 8, 2), J('h_c37', 0, 8, 500, 8, 1, cost=3), J('h_c37', 0, 7, 1000, 0, 3, cost=3),
   J('h_c37', 2, 2, 500, 8, 1, opts=FP), J('h_c37', 2, 3, 500, 8, 1, opts=FP), J('h_c37', 2, 4, 1000, 0, 2, opts=FP), J('h_c37', 2, 4, 1000, 0, 3, opts=FP, cost=5), J('h_c37', 2, 5, 1000, 0, 2, opts=FP, deep=1), J('h_c37', 0, 3, 500, 8, 3, deep=1), J('h_c37', 1, 8, 500, 0, 3, deep=1)],
  HASH, 'the random generator: integer draws are uniform over their range, f64 draws are uniform over [0, 1)')
P('C38', 'item counts and entries per index 0..5, fingerprint, quotient and remainder sizes 0..255 (accepted tables up to 2^6 slots), fpp 0.1 (0.5 where the fingerprint size is given); every double outside (0, 1), NaN and infinities included. Values inside (0, 1): C31, C32, C34. A fingerprint size of 1, documented as valid and rejected, is left open',
  [J('h_c38', k, 100, 2, 9) for k in (0, 1, 2, 3, 4, 5, 8, 9, 10)] + [J('h_c38', 6, 500, 3, 6), J('h_c38', 7, 500, 3, 6)] + [J('h_c38_fp', k, opts=FP, reach=[]) for k in range(4)], HASH)

NA = {}
for i in range(1, 39):
    p = 'C%02d' % i
    if p not in PROPS and p not in NA: NA[p] = 'not built yet'
