#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

B='src/bloom/bloom_filter.rs'; PB='src/bloom/partitioned_bloom_filter.rs'; SB='src/bloom/scalable_bloom_filter.rs'; DD='src/bloom/dd_bloom_filter.rs'
CK='src/cuckoo/cuckoo_filter.rs'; SC='src/cuckoo/scalable_cuckoo_filter.rs'; Q='src/quotient.rs'; CM='src/count_min_sketch.rs'; H='src/hyperloglog.rs'
MH='src/similarity/min_hash.rs'; SH='src/similarity/sim_hash.rs'; SM='src/similarity/mod.rs'; U='src/util.rs'; BV='src/bit_vec.rs'; BS='src/bitstring_vec.rs'

p('C01','BloomFilter never forgets: no false negatives, monotone membership',
  'For every hash function pair and every sequence of insertions into a BloomFilter, contains returns true for every item inserted since construction or the last clear, and an answer of true never turns into false without a clear. A query reads only: it never changes a later answer. Membership depends only on the set of inserted items, not on their order or multiplicity.',
  ['inputs','histories','configurations'],'all hash values (64-bit) of every item, all insertion histories within the bound, several bit counts (not multiples of 8, 1 bit) and hasher counts',
  'The tests insert one or two concrete strings under one pair of hashers; index arithmetic for other hash values, bit counts and histories is never exercised.',
  [B,BV,U],[('insert sets hasher_count bits of the double-hash sequence; contains tests the same ones',B+':insert/contains'),('bit addressing',BV+':set/get')],['BloomFilter::contains'],
  [('bit_vec','bits of the filter',B)])
p('C02','BloomFilter bit accounting and clear are exact',
  'At every point of a BloomFilter history, count_ones equals the number of distinct bit positions set by the inserted items, count_ones + count_zeros = len, and estimated_fpp equals (count_ones/len)^hasher_count. An item is reported present exactly when all of its bit positions were set. After clear the filter is empty (no ones, no item present) with the same len, hasher count and hashers, and behaves like a new filter.',
  ['inputs','histories','configurations'],'all 64-bit hash values, all histories of inserts and clears within the bound',
  'Tests check the counters after one or two fixed inserts only; colliding positions inside one item or between items, and reuse after clear, are not sampled.',
  [B,BV,U],[('set updates the running one count only on change',BV+':set'),('set_all keeps the tail of the last block clear',BV+':set_all')],['count_ones','count_zeros','estimated_fpp','contains','len'])
p('C03','PartitionedBloomFilter: no false negatives, one bit per partition',
  'For every hash function pair and history, a PartitionedBloomFilter contains every inserted item, and its i-th probe of an item always lies in the i-th of hasher_count disjoint partitions of bit_count bits each. Hence one insert sets exactly hasher_count bits in an empty filter, membership of an item is exactly the conjunction of its per-partition bits, count_ones is the number of distinct bits set, count_ones + count_zeros = len = bit_count*hasher_count, and clear empties it.',
  ['inputs','histories','configurations'],'all hash values, histories of inserts and clears, several partition sizes and counts',
  'Tests use one or two strings and a fixed hasher, so neither partition boundaries nor colliding probes are covered.',
  [PB,BV,U],[('offset = hash % bit_count + index * bit_count',PB+':insert/contains')],['contains','count_ones','count_zeros','len'])
p('C04','ScalableBloomFilter keeps every item across growth and grows when due',
  'For every hash function pair and insertion history, a ScalableBloomFilter contains every item inserted since construction or clear, also after any number of filters were added, and re-inserting a present item changes no bit of any filter. A filter is added only once the newest filter has at least half of its bits set, and after an insert the newest filter is always less than half full unless it was just added; its length is the previous length times the growth ratio, rounded up. clear returns it to one empty filter of the initial length; len, count_ones and count_zeros are sums over the filters.',
  ['inputs','histories','configurations'],'all hash values, all insert/clear histories within the bound that cross growth steps, several growth and tightening ratios',
  'The growth point depends on which bits collide; tests grow once or twice under one fixed hasher.',
  [SB,B,BV],[('try_grow recounts the ones when the estimate reaches half',SB+':try_grow'),('any-filter lookup',SB+':contains')],['contains','filter_count','len','count_ones'],
  [('approximate_bits_used','upper estimate of ones in the newest filter',SB)])
p('C05','Stream filters (BS, BSSD, RLBS) always contain the item just inserted',
  'For BSBloomFilter, BSSDBloomFilter and RLBSBloomFilter, for every hash function pair, every prior state and every outcome of the random number generator, contains(x) is true immediately after insert(x), and inserting an item that is already reported present changes nothing. No operation panics.',
  ['inputs','histories','fault_sequences'],'all hash values, all random draws, all reachable filter states within the history bound',
  'The random draws come from entropy, so a test sees one outcome; a bad order of evicting and setting bits shows only when the draw hits one of the bits being set.',
  [DD,BV,U],[('clear random bits first, then set the item bits',DD+':insert'),('already-present check on the same hash sequence',DD+':contains_hashes')],['contains','count_ones'],
  [('rng','eviction randomness, replaced by arbitrary draws',DD)])
p('C06','Stream filters evict boundedly and account their bits exactly',
  'For every hash function pair, random outcome and history, one insert of an absent item clears at most one bit per partition (BSBloomFilter, RLBSBloomFilter) or at most one bit in total (BSSDBloomFilter) and sets exactly that item\'s one bit per partition; every other bit is unchanged. An RLBSBloomFilter partition with no set bits is never chosen for eviction effects, count_ones + count_zeros = len = bit_count*hasher_count always holds with count_ones the true number of set bits, and clear empties the filter.',
  ['inputs','histories','fault_sequences'],'all hash values, all random draws, all states within the history bound',
  'Eviction is random and its extent is never asserted by the tests.',
  [DD,BV],[('one draw per partition / one draw in total / draw with probability ones/bit_count',DD+':insert')],['count_ones','count_zeros','contains','serialized bits'])
p('C07','CuckooFilter has no false negatives through kicks and overflow',
  'For every hash function pair, every random kick outcome and every sequence of insertions into a CuckooFilter (including after the table is full and entries overflow), contains is true for every inserted item that was not since removed (nor an item with the same fingerprint and buckets removed) or cleared. Inserting never makes another present item absent. The kick loop always terminates.',
  ['inputs','histories','fault_sequences','configurations'],'all hash values, all random draws, histories past the point where the table is full, several table geometries (buckets, entries per index, fingerprint bits 2..64)',
  'Relocations depend on hash values and random draws; tests fill one table with one hasher and do not check every resident entry after each kick.',
  [CK,BS,U],[('partial-key cuckoo hashing: alternate bucket = bucket XOR hash(fingerprint)',CK+':get_fingerprint_and_indexes/insert'),('overflow list keyed by (fingerprint, smaller bucket)',CK+':insert/contains_fingerprint')],['CuckooFilter::contains'],
  [('fingerprint_vec','table of fingerprints',CK),('extra_items','overflowed entries',CK)],
  'guarded setter for the kick limit (512 by default) so that the overflow path is reached within the unrolling bound')
p('C08','CuckooFilter stores a set of (fingerprint, bucket pair) entries exactly',
  'For every hash function pair, random outcome and history of insert, remove and clear, a CuckooFilter holds each distinct (fingerprint, bucket pair) at most once: len + extra_items_len equals the number of distinct such pairs inserted and not removed, contains(x) is true exactly when x\'s pair is among them, inserting a present item changes nothing, and removing an absent one changes nothing. remove makes exactly its own pair absent and keeps every other; is_nearly_full holds exactly when extra_items_len > 0; clear empties everything.',
  ['inputs','histories','fault_sequences'],'all hash values and random draws; histories of inserts, removes and clears within the bound',
  'Tests remove one item from a nearly empty filter; interplay of equal fingerprints, both buckets, overflow entries and removal is not sampled.',
  [CK,BS,U],[('duplicate check before insert',CK+':insert'),('removal in both buckets and in the overflow list',CK+':remove_fingerprint')],['contains','len','extra_items_len','is_empty','is_nearly_full'])
p('C09','CuckooFilter capacity is its number of table slots',
  'For every constructor argument within the documented domain, a CuckooFilter has bucket_len equal to the smallest power of two that holds item_count at entries_per_index per bucket, capacity equals bucket_len * entries_per_index and never changes (not on insert, clear, clone or deserialization), and len never exceeds capacity. estimated_fpp is 0 for an empty filter, uses len/capacity as its load, and stays within [0,1].',
  ['configurations','inputs','histories'],'all item counts, fingerprint sizes and entries per index within the bound; all fills',
  'Tests assert capacity for a couple of round item counts where the block capacity happens to agree.',
  [CK,BS],[('bucket count rounding',CK+':with_hashers and the other constructors'),('capacity',CK+':capacity')],['capacity','bucket_len','len','estimated_fpp'])
p('C10','ScalableCuckooFilter keeps items across growth; remove reaches all filters',
  'For every hash function pair, random outcome and history, a ScalableCuckooFilter contains every item inserted and not since removed or cleared, also across growth; after remove(x) on a filter without colliding items, x is absent. A filter is added exactly when, after an insert, the newest one has overflowed or is full; len is the number of stored entries including overflowed ones, capacity is the sum over filters, a new filter is sized for the capacity of the newest one times growth_ratio (rounded up), and clear returns to one empty filter of the initial size.',
  ['inputs','histories','fault_sequences'],'all hash values and random draws, histories crossing growth steps',
  'Growth and overflow depend on hash values and draws; tests check one growth under one seed.',
  [SC,CK],[('grow when last filter is nearly full or full',SC+':try_grow'),('any-filter lookup, all-filter removal',SC+':contains/remove')],['contains','len','filter_count','capacity'])
p('C11','QuotientFilter membership is exactly its set of fingerprints',
  'For every hash function and every sequence of insert, remove and clear on a QuotientFilter (up to a completely full table), contains(x) is true exactly when the (quotient, remainder) fingerprint of x was inserted and not since removed or cleared. In particular there are no false negatives, and removing an item that is not in the filter, or re-inserting one that is, changes nothing observable. Every operation terminates without panicking unless a new fingerprint is inserted into a full table, which panics.',
  ['inputs','histories','configurations'],'all 64-bit hash values, all histories within the bound from all reachable layouts, small tables up to and including full ones, wrap-around at the table end, slots crossing word boundaries',
  'Run shifting, wrap-around and metadata transfer depend on the exact layout; the tests cover a handful of hand-picked layouts.',
  [Q,BS,U],[('run/cluster navigation by occupied/continuation/shifted bits',Q+':get_run_start'),('shift right on insert',Q+':insert_and_shift_right'),('shift left on remove',Q+':remove')],['contains'],
  [('slot_vec','remainders and metadata bits',Q)])
p('C12','QuotientFilter len is the number of distinct fingerprints stored',
  'After every history of insert, remove and clear, QuotientFilter len equals the number of distinct fingerprints stored, is_empty is len = 0, capacity is 2^quotient_bits, and estimated_fpp is 1 - exp(-(len/capacity)/2^remainder_bits). Two filters holding the same fingerprints through different histories are indistinguishable, also when serialized.',
  ['inputs','histories','configurations'],'all hash values and histories within the bound',
  'Tests look at len for fixed sequences; duplicates, absent removals and layouts reached by different orders are not compared.',
  [Q,BS],[('len bookkeeping',Q+':insert/remove'),('canonical layout of runs',Q+':insert/remove')],['len','is_empty','serialized form'])
p('C13','QuotientFilter accepts exactly the documented parameter domain',
  'QuotientFilter construction panics exactly when quotient_bits is 0, remainder_bits is 0 or above 61 (a slot of three metadata bits and the remainder must fit in 64 bits) or their sum exceeds 64, for every pair of u8 values; every accepted pair whose table fits in memory yields a filter on which inserts, lookups and removals are exact.',
  ['configurations','inputs'],'all 65536 (quotient_bits, remainder_bits) pairs for acceptance; every remainder size with a small quotient for behaviour',
  'Tests try three invalid pairs; overflow of the u8 sum and remainder sizes near 64 are not tried.',
  [Q,BS],[('argument assertions',Q+':with_hasher'),('slot width = remainder bits + 3',Q+':with_hasher')],['QuotientFilter::new','contains'])
p('C14','CountMinStrategy never underestimates and is bounded by the total',
  'For every hash function pair and every history of insertions with non-negative counts into a CountMinSketch, count under CountMinStrategy is at least the true count of the item and at most the total of all counts inserted. It equals the minimum over rows of the sum of the counts of the items sharing the item\'s cell in that row.',
  ['inputs','histories','configurations'],'all hash values, all counts, all histories within the bound, several grid shapes',
  'Tests insert a few strings under one hasher where collisions do not occur.',
  [CM,U],[('each row adds to cell hash_i mod cols',CM+':insert'),('minimum over the rows',CM+':CountMinStrategy')],['CountMinSketch::count'])
p('C15','CountMinSketch is linear: removals cancel, order is irrelevant',
  'For every hash function pair and all signed counts, remove(x, v) undoes insert(x, v) for every query, the result of any history depends only on the total count per item and not on order or batching, a sketch holding a single distinct item reports its count exactly under the min and mean strategies, and clear makes every count zero again as in a new sketch.',
  ['inputs','histories','configurations'],'all hash values, all signed counts without i64 overflow, histories within the bound, all three strategies',
  'Tests use one insert/remove pair of fixed values.',
  [CM,U],[('cells are sums',CM+':insert/remove'),('clear resets cells and total',CM+':clear')],['CountMinSketch::count'])
p('C16','Mean and median-bias estimates follow their definitions and bounds',
  'For every cell content, CountMeanStrategy returns the mean of the item\'s row cells rounded to the nearest integer (halves away from zero). CountMedianBiasStrategy returns the smaller of the minimum cell and the lower median of the bias-corrected cells v - ceil((total - v)/(cols - 1)), so it never exceeds the CountMinStrategy estimate on the same sketch.',
  ['inputs','histories','configurations'],'all cell values and totals within the bounded magnitude, several row and column counts, all hash values',
  'Tests check single-item sketches where every strategy agrees.',
  [CM],[('strategy implementations',CM+':CountMeanStrategy/CountMedianBiasStrategy')],['CountMinSketch::count'])
p('C17','HyperLogLog state depends only on the set of items; merge is union',
  'For every hash function, a HyperLogLog\'s observable state and estimate depend only on the set of distinct items inserted (not on order or repetition), merge yields the same state as inserting both item sets into one counter, merge is commutative, associative and idempotent and leaves its argument unchanged, clear restores the empty counter, and merging counters of different precision or hashers panics.',
  ['inputs','histories','configurations'],'all 64-bit hash values, histories and splits within the bound, several precisions',
  'Tests merge one pair of three-element sets.',
  [H,U],[('register = max of rank',H+':insert'),('register-wise max',H+':merge')],['len','merge','serialized registers'],
  [('registers','per-bucket maximum rank',H)])
p('C18','HyperLogLog registers hold the maximum rank seen in their bucket',
  'For every hash function, each inserted item affects exactly the register selected by the low p bits of its hash, raising it to one plus the number of consecutive one bits directly above those p bits if that is larger, and no other register. Registers never decrease except through clear.',
  ['inputs','histories','configurations'],'all 64-bit hash values and prior states within the bound, several precisions',
  'Tests only look at the final estimate of three items under one hasher.',
  [H],[('rank computation',H+':insert')],['serialized registers'])
p('C19','HyperLogLog len is a finite estimate, zero exactly when empty',
  'For every state a HyperLogLog can reach, len is finite and non-negative; it is zero, and is_empty true, exactly when no item was inserted since construction or clear (as long as no more items were inserted than the registers can count). The value is linear counting m*ln(m/zeros) while the raw harmonic-mean estimate alpha*m^2/sum(2^-register) is at most 2.5*m and some register is zero, and the raw estimate otherwise.',
  ['inputs','histories','configurations'],'all register contents (as arbitrary counts of zero registers and arbitrary harmonic sums) for each precision',
  'Tests only reach states with nearly all registers zero.',
  [H],[('raw estimate',H+':get_estimate'),('range selection',H+':len')],['len','is_empty'])
p('C20','MinHash signatures are element-wise minima over the hash sequences',
  'For every hash function pair and every non-empty input, entry i of a MinHash signature is the minimum over the input items of the i-th element of their hash sequences; hence signatures ignore order and duplicates and the signature of a union is the element-wise minimum. Similarity lies in [0,1], is symmetric, is 1 for equal item sets, and equals the fraction of equal signature entries; comparing signatures of different length panics.',
  ['inputs','configurations'],'all hash values, inputs of bounded size, several signature lengths',
  'Tests compare two fixed sentences.',
  [MH,U],[('parallel iteration and min',MH+':get_min_hashes'),('matching fraction',MH+':get_similarity_from_hashes')],['get_min_hashes','get_similarity'])
p('C21','SimHash is a per-bit majority vote independent of input order',
  'For every hash function and every input, each bit of the hash reported by SimHash is decided by a vote of the items\' hash bits at the corresponding (mirrored) position: it is 1 exactly when at least half of the items have a 0 there. Hence it is independent of the order of items and an input of one item gives the bit-reversed complement of its hash.',
  ['inputs'],'all 64-bit hash values, inputs of bounded size',
  'Tests compare two fixed sentences under one hasher.',
  [SH],[('vote counters',SH+':get_sim_hash')],['get_sim_hash'])
p('C22','SimHash report_similarities returns valid distinct pairs for any window',
  'For every list of inputs and every window size greater than 1, report_similarities terminates without panicking and returns each pair at most once, as (i, j) with i < j < number of inputs. It reports every pair of inputs with equal hashes that fit in one window, every pair whenever the window covers all inputs, and it panics only when window_size <= 1.',
  ['inputs','configurations'],'all hash values of the inputs, all input counts including fewer than the window, all small window sizes',
  'Tests call it on one list of three documents with window 2.',
  [SH],[('rotate, sort, slide a window',SH+':report_similarities')],['report_similarities'])
p('C23','ShingleIterator yields exactly the consecutive windows, for any length',
  'For every token list and every positive shingle size, ShingleIterator yields exactly the windows tokens[i..i+size] in order for i = 0 .. len - size, and nothing (without panicking) when there are fewer tokens than the shingle size; after the end it keeps returning None.',
  ['inputs','configurations'],'all token counts and shingle sizes within the bound, arbitrary tokens',
  'Tests use sentences longer than the shingle size.',
  [SM],[('window end check',SM+':ShingleIterator::next')],['ShingleIterator::next'])
p('C24','Jaccard similarity is |A intersect B| / |A union B|',
  'For all inputs that are not both empty, get_jaccard_similarity equals the number of distinct common items divided by the number of distinct items in either input, independent of order and duplicates; it is symmetric, in [0,1] and 1 for equal sets.',
  ['inputs'],'all equality patterns of items in inputs of bounded size',
  'Tests compare two fixed sentences.',
  [SM],[('set intersection and union counts',SM+':get_jaccard_similarity')],['get_jaccard_similarity'])
p('C25','The double hash sequence is fixed: a + i*b + i(i-1)(i-2)/6 (mod 2^64)',
  'For every pair of hash values (a, b) the probe sequence used by all double-hashing collections is h_0 = a, h_{i+1} = h_i + b_i, b_0 = b, b_{i+1} = b_i + i (mod 2^64), for every index i and without panicking. It is a pure function of the item and the two hash builders, so persisted filters stay readable.',
  ['inputs'],'all 64-bit values of both hashes, all indices within the unrolling bound',
  'Tests never look at the sequence; changing it consistently in insert and lookup keeps every test green but breaks every persisted filter.',
  [U,B,CM,MH],[('enhanced double hashing iterator',U+':HashIter::next')],['MinHash::get_min_hashes of one item (the sequence itself)','bits set by filters'])
p('C26','Serialization round-trips every collection without losing behaviour',
  'With the serde feature, serializing and deserializing any collection in any reachable state yields a collection that answers every query identically (membership, counts, len, capacity, fill statistics) and evolves identically under further operations with the same random draws. This includes overflowed cuckoo entries and every filter of the scalable variants.',
  ['inputs','histories','configurations'],'all hash values and histories within the bound; every collection type',
  'Tests round-trip one fixed state per type and compare a few fields; overflow entries and grown filters are not in those states.',
  ['src/bloom/','src/cuckoo/',Q,CM,H,BV,BS,U,'src/lib.rs'],[('derived Serialize/Deserialize with skipped rng',"each struct's serde attributes")],['bincode::serialize/deserialize','queries afterwards'])
p('C27','Clones are equal and independent',
  'A clone of any collection that implements Clone answers every query like the original, and later operations on either never affect the other. Equality (where implemented) holds between a collection and its clone and fails once their contents differ.',
  ['inputs','histories'],'all hash values and histories within the bound; every collection type',
  'Tests clone rarely and never mutate both sides with arbitrary items.',
  ['src/bloom/','src/cuckoo/',Q,CM,H,BV,BS],[('Clone implementations',BV+':clone and derives')],['queries on both after mutation'])
p('C28','BitVec behaves as a vector of booleans with an exact one count',
  'The crate\'s bit vector, under every sequence of its operations (construction, set, flip, push, pop, truncate, set-all, flip-all, union, intersection, difference, symmetric difference, byte conversion, clone), equals a plain sequence of booleans: same length, same bits, count_ones the number of ones, equality exactly when length and bits agree. Out-of-range set and mismatched-length set operations panic; get out of range is None.',
  ['inputs','histories'],'all bit contents, indexes and lengths within the bound, crossing block boundaries',
  'Tests use fixed 2- to 16-bit vectors, mostly multiples of the block size.',
  [BV],[('block and mask arithmetic',BV)],['BitVec API through the guarded hook'],(),'re-export of the private bit vector under the guard')
p('C29','BitstringVec stores any width of value exactly, across word boundaries',
  'For every element width from 1 to 64 bits, the crate\'s packed vector under every sequence of set, push, pop, truncate, clear (every element becomes 0, the length stays) and clone equals a plain sequence of integers: reading an element returns the value last written to it, writing one element changes no other, len follows pushes and pops, and occupied_len is the number of non-zero elements.',
  ['inputs','histories','configurations'],'all widths 1..64, all values of that width, all indexes within the bound',
  'Tests use widths 5, 7 and similar with a few values; most widths and offsets within a word are never visited.',
  [BS],[('split access over two 64-bit blocks',BS+':set/get')],['BitstringVec API through the guarded hook'],(),'re-export of the private packed vector under the guard')
p('C30','Bloom filter sizing meets the requested capacity and error',
  'For every item count >= 1 and every fpp in (0,1) with representable sizes: BloomFilter::new/with_hashers allocates at least the theoretically required n*ln(1/fpp)/ln(2)^2 bits and less than one bit more; from_item_count and from_fpp allocate exactly the given bit count; hasher_count is the least positive integer not below bits-per-item*ln 2 (from_fpp: for the number of items the bits can hold at fpp). PartitionedBloomFilter uses the least hasher_count not below log2(1/fpp) and the least bits per partition that give n*ln(1/fpp)/ln(2)^2 in total (or exactly the given bits per partition), and len is their product. The three deduplicating filters have the requested bits per partition and the least hasher_count not below the mean of 1 and 1 + ln(fpp)/ln(1-1/e).',
  ['configurations'],'every item or bit count up to 2^40 and every real fpp in the stated range (symbolically, floating-point rounding modelled as bounded relative error)',
  'Tests check two constructor calls.',
  [B,PB],[('sizing formulas',B+':with_hashers/get_hasher_count, '+PB+':from_item_count_with_hashers')],['len','hasher_count','bit_count'])
p('C31','Cuckoo sizing: estimated_fpp of a full filter stays within the request',
  'For every fpp in [1e-6, 1) and entries per index, a CuckooFilter from from_entries_per_index has the requested entries per index and a fingerprint size (within one bit of the least) such that estimated_fpp does not exceed the requested fpp even when the table is completely full; from_fingerprint_bit_count picks the largest number of entries per index for which that holds and panics exactly when even one entry is too many; and for every item count the number of buckets is the least power of two whose slots hold the items.',
  ['configurations'],'all real fpp in the range and all item counts up to 2^16; entries per index and fingerprint sizes within the stated sets',
  'Tests check one or two constructor calls.',
  [CK],[('fingerprint size formula',CK+':from_entries_per_index_with_hashers'),('entries per index formula',CK+':from_fingerprint_bit_count_with_hashers')],['fingerprint_bit_count','entries_per_index','bucket_len','estimated_fpp'])
p('C32','Quotient sizing: capacity items fit and estimated_fpp stays within fpp',
  'For every capacity >= 1 and fpp in (0,1) for which the table fits in memory, QuotientFilter::from_fpp yields a filter whose slot count is the least power of two (at least 2) not below 1.33*capacity and whose remainder is the least size for which estimated_fpp at that load does not exceed fpp; the filter does not panic for such arguments, and after capacity distinct items estimated_fpp is within fpp. Values of fpp outside (0,1) are rejected by a panic.',
  ['configurations'],'all real fpp and capacities (symbolically, floating-point rounding modelled as bounded relative error)',
  'Tests check one constructor call.',
  [Q],[('sizing formulas',Q+':from_fpp_with_hasher')],['quotient_bits','remainder_bits','estimated_fpp'])
p('C33','CountMinSketch sizing meets the requested error bounds',
  'For every epsilon and delta in (0,1), a CountMinSketch built from them reports confidence() <= epsilon and error() <= delta (up to rounding), with the fewest columns and rows for which that holds.',
  ['configurations'],'all real epsilon, delta (symbolically, floating-point rounding modelled as bounded relative error)',
  'Tests check one constructor call.',
  [CM],[('sizing formulas',CM+':from_error')],['rows','cols','confidence','error'])
p('C34','HyperLogLog precision meets the requested standard error',
  'For every error probability in (0,1) for which the registers fit in memory, the number of registers m is the smallest power of two with standard error 1.04/sqrt(m) not above the requested error probability, and the constructor panics for values outside (0,1).',
  ['configurations'],'all real error probabilities in the stated range (symbolically)',
  'Tests never relate the register count to the requested error.',
  [H],[('precision formula',H+':with_hasher')],['serialized registers length'])
p('C35','Scalable filters tighten every level and report the compound error',
  'Level i of a ScalableBloomFilter or ScalableCuckooFilter is sized for a false positive probability of fpp * tightening_ratio^i (level 0 for fpp itself): it uses exactly the hash functions, respectively fingerprint size, of a plain filter of that size and probability, and its length is the previous one times growth_ratio, rounded up. At every moment estimated_fpp is 1 - prod(1 - fpp_i) over all levels, where fpp_i is what the items stored in level i amount to. After clear, the filter is back at level 0 with the initial length and probability.',
  ['configurations','histories'],'all real fpp and tightening ratios in the stated ranges, up to four levels',
  'Tests grow one filter with one setting and look at len, never at the error budget of the later levels.',
  ['src/bloom/scalable_bloom_filter.rs','src/cuckoo/scalable_cuckoo_filter.rs'],[('growth of the Bloom variant','src/bloom/scalable_bloom_filter.rs'+':try_grow'),('growth of the cuckoo variant','src/cuckoo/scalable_cuckoo_filter.rs'+':try_grow')],['estimated_fpp','filter_count','len','capacity','count_ones'])
p('C36','Convenience constructors equal their _with_hashers variants',
  'Every constructor that draws its own hash keys (new, from_item_count, from_bit_count, from_fpp, from_entries_per_index, from_fingerprint_bit_count, from_parameters, from_error, default) of every collection builds keys from fresh random draws, different for its two hash functions, and apart from the keys yields exactly the same collection (sizes and whole state) as the corresponding _with_hashers constructor called with the same arguments and those keys.',
  ['configurations'],'all item counts and real probabilities in the stated ranges, all drawn keys; whole serialized state at fixed arguments',
  'Tests use either the one or the other family and never compare the two; a slip in one of the duplicated sizing expressions, or two hash functions with the same key, goes unnoticed.',
  ['src/bloom/bloom_filter.rs','src/bloom/scalable_bloom_filter.rs',CK,'src/cuckoo/scalable_cuckoo_filter.rs',Q,CM,H],[('BloomFilter constructors','src/bloom/bloom_filter.rs'+':from_item_count'),('CuckooFilter constructors',CK+':from_entries_per_index'),('ScalableCuckooFilter constructors','src/cuckoo/scalable_cuckoo_filter.rs'+':from_entries_per_index'),('CountMinSketch constructors',CM+':from_error')],['hashers','len','capacity','rows','cols','serialized state'])
DD='src/bloom/dd_bloom_filter.rs'
p('C37','Stream filters evict with exactly the advertised probabilities',
  'When a new item is inserted into a stream filter, the distribution of evicted bits over the random draws is exactly that of its algorithm: in BSBloomFilter every set bit of a partition (other than the new item\'s) is evicted with probability 1/bit_count, in BSSDBloomFilter every such bit of the filter with probability 1/(bit_count * hasher_count) and never two at once, in RLBSBloomFilter every such bit of partition j with probability load_j/bit_count where load_j is the fraction of ones in the partition; in BS and RLBS the partitions evict independently. So every position can be evicted and none is favoured.',
  ['inputs','histories'],'all contents short histories reach, all items, all outcomes of the draws of one insertion',
  'A test sees one pseudo-random run; a position that is never evicted, or an eviction probability that is off by one cell, does not show in it.',
  [DD],[('BS eviction',DD+':impl BSBloomFilter::insert'),('BSSD eviction',DD+':impl BSSDBloomFilter::insert'),('RLBS eviction',DD+':impl RLBSBloomFilter::insert')],['contains','count_ones'])
p('C38','Constructors reject exactly the arguments their documentation excludes',
  'CuckooFilter constructors panic if and only if item_count is 0, entries_per_index is 0, the fingerprint size is 0 or above 64, or the requested error cannot be reached with the given fingerprint size; QuotientFilter::new panics if and only if a bit count is 0, their sum exceeds 64 or the remainder exceeds 61; QuotientFilter::from_fpp and HyperLogLog constructors panic for capacity 0 and for every error or probability outside (0, 1), NaN and infinities included. Every accepted argument gives an empty collection with room for item_count items and the requested parameters.',
  ['configurations'],'all fingerprint, quotient and remainder sizes 0..255, counts and entries 0..5, all 2^64 doubles outside (0, 1)',
  'Tests have one invalid argument for one constructor.',
  [CK,Q,H],[('cuckoo constructors',CK+':from_parameters_with_hashers'),('quotient constructors',Q+':with_hasher'),('HyperLogLog constructors',H+':with_hasher')],['panic','capacity','fingerprint_bit_count'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
