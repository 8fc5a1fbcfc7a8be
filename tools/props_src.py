#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props_src.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
I = "include/Lintel/"; S = "src/"

prop("P01", "Hash containers behave as a mathematical map or set",
 """After any sequence of additions, lookups, indexed accesses, replacements, removals, clears, reserves, copies and
 assignments, a hash map or hash set holds exactly the entries the same sequence leaves in a mathematical map or set: lookups,
 sizes, key/value listings and reported insert/remove outcomes agree with it, whatever the hash function does (total collisions
 included) and however often the table has grown, and values of removed entries are released. A copy or an assigned-to container is equal to its source at that moment
 and independent of it afterwards.""",
 ["histories", "inputs"], "every operation sequence up to the depth bound over a few keys, from empty and from pre-filled/grown tables, for good, weak and constant hash functions",
 "hashtable/hashmap/hashunique tests run fixed or random sequences on one hash function; a broken chain/free-list link needs a particular order of collide, erase, reuse and grow.",
 [I+"HashTable.hpp", I+"HashMap.hpp", I+"HashUnique.hpp", S+"HashTable.cpp"],
 [("entry points + chains with free list", I+"HashTable.hpp HashTable::add/remove/resizeHashtable"), ("value default creation", I+"HashMap.hpp HashMap::operator[]"), ("dedupe on add", I+"HashUnique.hpp HashUnique::add")],
 ["lookup/exists/size/keys/values/iteration/add/remove return values"])

prop("P02", "Hash table iteration and multi-entry tables",
 """Iterating a hash table visits every stored entry exactly once and ends, in whatever state of growth, collision and prior
 removal the table is; erasing the entry an iterator has just moved past removes only that entry and does not disturb the iteration, and a chain-by-chain
 scan interrupted by updates that do not grow the table and resumed by a partial reset still visits every entry present throughout. A table that allows duplicates keeps
 every added copy until one is removed, removing takes away exactly one matching copy, and random lookup only ever returns stored entries and can return each of them.""",
 ["histories", "inputs"], "every add/remove/reset/iterate history up to the bound, under all hash distributions of a small range",
 "tests iterate a few hand-built tables; end-of-table, empty-chain and erased-head cases need specific layouts.",
 [I+"HashTable.hpp", I+"HashMap.hpp", I+"HashUnique.hpp"],
 [("iterator over chain vector", I+"HashTable.hpp HashTable::hte_iterator_base"), ("partialReset", I+"HashTable.hpp"), ("lookupRandom", I+"HashTable.hpp")])

prop("P03", "Two-generation hash map keeps recent keys and hands off old ones",
 """A rotating hash map finds every key that was added or looked up since the last-but-one rotation with its current value, and on each
 rotation it discards exactly the entries that were not touched since the previous rotation, handing each of them once, with its value, to the
 caller-supplied rotation function; a key is never held in both generations at once.""",
 ["histories"], "every sequence of lookups, indexed accesses, removals, rotations and flushes up to the depth bound over a few keys",
 "the single test walks one scripted history; promotion/rotation/removal orders are not enumerated.",
 [I+"RotatingHashMap.hpp"], [("promotion on access", I+"RotatingHashMap.hpp RotatingHashMap::operator[]"), ("rotate", I+"RotatingHashMap.hpp RotatingHashMap::rotate")])

prop("P04", "Double-ended queue preserves order, contents and element lifetimes",
 """After any sequence of appends (single elements or whole vectors), removals from the front, clears and reservations a deque holds exactly the elements a list would hold, in order, through
 indexing, front/back, size and every iterator form; iterator arithmetic, comparison and distance agree with element positions wherever the ring has wrapped.
 Every element ever stored is destroyed exactly once, and not before it is removed.""",
 ["histories"], "all push/pop/reserve/clear sequences up to the depth bound from every ring offset and several capacities",
 "deque test samples a few sizes; wrap, grow-while-wrapped and iterator arithmetic across the wrap need specific offsets.",
 [I+"Deque.hpp", S+"Deque.cpp"], [("ring buffer head/size arithmetic", I+"Deque.hpp Deque::increaseSizeTo, Deque::push_back"), ("iterator", I+"Deque.hpp Deque::iterator")])

prop("P05", "Priority queue always yields the largest remaining element",
 """After any sequence of pushes, pops (either algorithm), top replacements, reservations and clears, the priority queue's top is a greatest element under the comparator among exactly the
 elements pushed and not yet popped (as a multiset), and its size is their number, for every element type, comparator and growth step; its self-verification accepts every reachable queue.""",
 ["histories", "inputs"], "all push/pop/replace-top sequences up to the depth bound, all insertion orders of small multisets, queue sizes crossing each reallocation",
 "the test uses random data in one direction; ties, replace-top sift cases and growth boundaries are incidental.",
 [I+"PriorityQueue.hpp", S+"PriorityQueue.cpp"], [("sift up/down", I+"PriorityQueue.hpp PriorityQueue::push/pop/replaceTop"), ("growth", I+"PriorityQueue.hpp PriorityQueue::resize")])

prop("P06", "Byte buffers keep contents exact and never leak changes across copies",
 """A byte buffer holds exactly the bytes appended, assigned, replaced or read from a stream and not yet removed from the front or back, in order, through every accessor;
 a copy of a buffer sees the contents of the moment of copying and no later change of either buffer is visible in the other, while reads through an unshared or shared buffer give the same bytes.""",
 ["histories", "fault_sequences"], "all operation sequences up to the depth bound over two aliasing buffers, block sizes around each reallocation, and stream reads that are short, empty or failing at every point",
 "byte_buffer test runs hand-written sequences on one or two buffers; aliasing plus reallocation plus partial consumption combinations are not enumerated.",
 [I+"ByteBuffer.hpp"], [("reference-counted storage with copy-on-write", I+"ByteBuffer.hpp ByteBuffer::uniqueify"), ("front/back offsets", I+"ByteBuffer.hpp ByteBuffer::removeFromFront/appendUninitialized")])

prop("P07", "Interned constant strings: equal content means the same string",
 """Two constant strings are equal exactly when the byte sequences they were built from are equal; each returns exactly its bytes and length, terminated by a zero byte, at a stable address for the life of the program, however many further strings are created. Ordering between constant strings (and
 inequality with ordinary strings) is a strict total order equal to byte-wise string order and consistent with equality, for every length and byte value including embedded zero bytes; equal strings hash equal.""",
 ["inputs", "histories"], "all pairs and triples of strings over a small alphabet including NUL and high bytes up to a length, all creation orders of small sets, and every fill level near a storage-block boundary",
 "no test targets it; block-boundary and embedded NUL cases are untested.",
 [I+"ConstantString.hpp", S+"ConstantString.cpp"], [("intern table", S+"ConstantString.cpp ConstantString::init"), ("storage blocks", S+"ConstantString.cpp"), ("comparison", I+"ConstantString.hpp ConstantString::compare")])
prop("P09", "String conversions invert each other and reject what they cannot represent",
 """Converting text to an integer (any width, signed or unsigned, base 8, 10 or 16) or to a double yields exactly the value the whole text denotes, or reports an error when it denotes none or one the type cannot hold (empty text, trailing characters, overflow, negative for unsigned). Hex strings, dotted IPv4 addresses, CSV fields, database
 escapes, unprintable-character escapes and XML attribute values decode back to exactly the original bytes, non-hex input is refused, and splitting on a separator then joining with it restores the text, with one field per separator plus one. Classification, prefix/suffix and case-conversion helpers agree with their plain ASCII definitions on every byte string.""",
 ["inputs"], "all strings up to a small length over an alphabet of digits, signs, separators and boundary bytes, and all boundary values for each numeric type",
 "stringutil/xmlutil tests check tens of literals; the guarantees quantify over all byte strings.",
 [I+"StringUtil.hpp", S+"StringUtil.cpp", I+"XMLUtil.hpp", S+"XMLUtil.cpp"], [("checked strtol wrappers", I+"StringUtil.hpp stringToInteger"), ("hex codecs", S+"StringUtil.cpp hexstring/maybehexstring"), ("split/join", S+"StringUtil.cpp split/join")])

prop("P10", "Order-preserving base-64 round-trips and keeps order",
 """Encoding any byte string gives the fewest base-64 digits that hold it (or exactly the number of digits asked for, with zero digits added after the data, or before it in the big-endian form), decoding gives the bytes back, and one string sorts before another exactly when its encoding does.
 Encoded numbers of 32 or 64 bits are their big-endian base-64 digits, so a fixed width sorts in numeric order. Decoding gives the same answer, without a data race, when several threads use it first at the same time, and no encoding reads or writes outside its buffers.""",
 ["inputs", "schedules"], "all byte strings up to 3 bytes (thorough) and boundary bytes beyond, all values of every field width at the boundaries, all interleavings of two first-time decoders",
 "base64 test samples values; byte/bit alignment classes and the lazily built decode table under concurrency are not covered.",
 [I+"Base64.hpp"], [("digit packing", I+"Base64.hpp"), ("decode table built on first use", I+"Base64.hpp detranslate")])

prop("P11", "Substring search agrees with a naive search",
 """For every needle and haystack the Boyer-Moore-Horspool matcher reports a match exactly when the needle occurs in the haystack, and reports its first position, for every byte value, needle length and alignment, without reading outside the haystack.""",
 ["inputs"], "all needles and haystacks up to length bounds over 2-3 letter alphabets mapped to several byte values (including negative chars and NUL), haystacks placed against guard zones",
 "test uses a few literals; skip-table errors show only for particular repetition structures.",
 [I+"BoyerMooreHorspool.hpp", S+"BoyerMooreHorspool.cpp"], [("bad-character skip table", S+"BoyerMooreHorspool.cpp")])
prop("P12", "Interpolation search finds the lower bound",
 """Over any range sorted by key, for every key, interpolation search returns the first position whose key is not less than the sought key (the end if none), exactly as a binary lower-bound search would, for every distribution of keys, duplicates and extreme values, and it terminates without touching elements outside the range.""",
 ["inputs"], "all sorted arrays up to a length bound over small and extreme key alphabets, all sought keys",
 "the test uses random data sets; duplicates at estimate boundaries and extreme spreads are incidental.",
 [I+"STLUtility.hpp", I+"unstable/InterpolationSearch.hpp"], [("estimate/offset clamping", "include/Lintel/unstable/InterpolationSearch.hpp")])
prop("P13", "Time conversions are exact and inverse",
 """Converting whole seconds with microseconds or nanoseconds to fixed-point time (units of 2^-32 second) gives the exact value rounded up, and converting back takes the exact value rounded down, so every microsecond and nanosecond value round-trips with the same seconds and never yields a sub-second part of a full second or more.
 Conversion from a non-negative floating-point number of seconds gives the nearest fixed-point value (numbers of seconds too large to hold are refused) and conversion to floating point the nearest double, also for signed differences and offsets in either direction.""",
 ["inputs"], "every microsecond value and (thorough) every nanosecond value of a second, with boundary seconds including negative and extreme values",
 "clock test samples; carry at the top of a second depends on single values.",
 [I+"Clock.hpp", S+"Clock.cpp"], [("fixed point conversions", I+"Clock.hpp Clock::secNanoToTfrac/TfracToNanoSec")])
prop("P15", "Running statistics equal the statistics of the data",
 """After any sequence of additions, merges of accumulators (also an empty one or itself) and resets, an accumulator's count, total, total of squares, mean, variance, standard deviation, 95% confidence interval, minimum and maximum, and every printed form of them, equal (to rounding) those of the multiset of values contributed since its last reset, whatever the order and grouping.
 Statistics split into fixed time intervals put each value into the half-open interval its time falls in, counted from the first time, give empty statistics for intervals without values, cover all intervals together in the overall figures, and refuse values from the past. A read/write set of statistics keeps reads, writes and the combination apart, any of which may be absent; the combination takes in every read and write until a value is given to it directly, and from then on holds only such values.""",
 ["histories", "inputs"], "all add/merge/reset histories up to the depth bound over several accumulators and a small value alphabet",
 "stats tests compute a few sums; empty merges, reset then merge, and min/max with one sign are not enumerated.",
 [I+"Stats.hpp", S+"Stats.cpp"], [("sum and sum of squares", S+"Stats.cpp Stats::add"), ("merge", S+"Stats.cpp Stats::add(const Stats&)")])
prop("P16", "Streaming quantiles stay within their error bound for every arrival order",
 """For any number N of values up to the declared maximum arriving in any order, every quantile phi asked for at any moment is one of the values added, at a position in sorted order between ceil((phi-e)N) and ceil((phi+e)N) where e is the declared error (kept within 1 and N), and it is exactly the value at position ceil(phi N) while the values fit in the collector's buffers. Count, extremes and mean stay exact, quantiles never decrease as phi grows, and the printed tables show the same quantiles.
 Merging another collector of the same declared error at most doubles the error, merging an empty one changes nothing, merging leaves the other one as it was, and a reset forgets everything.""",
 ["inputs", "histories"], "all 0/1 threshold patterns (sufficient for all orders, by monotonicity) over block-count profiles for small buffer configurations, all queries, every prefix",
 "the test uses random permutations of a few distributions; the worst order for the collapse policy is adversarial.",
 [I+"StatsQuantile.hpp", S+"StatsQuantile.cpp"], [("buffer collapse policy", S+"StatsQuantile.cpp StatsQuantile::collapse"), ("weighted selection", S+"StatsQuantile.cpp StatsQuantile::getQuantile")])
prop("P17", "Histograms conserve counts through scaling and growth",
 """Every finite value added to a histogram, uniform or logarithmic, is counted in exactly one bin, the one whose bounds contain it (on a bound computed with rounding, one of the two neighbours), or in the first or last bin of a fixed histogram when it lies below or above the range; the bins add up to the number of values since the last reset, and an accumulating histogram keeps the sum of the values given for each bin.
 A scalable histogram doubles its range until it covers a new value, keeping its number of bins, a growable one adds bins of the same width, and afterwards every earlier value is still counted in the bin that contains it; a reset empties all bins, bins past the last are refused, and a group of histograms passes each value to the one range that contains it.
 A percentile p lies in the used bin at which the cumulative count reaches p times the number of values, at the proportional position inside it (the low bound of the first used bin for 0, and 0 when empty), and printed tables show these counts.""",
 ["histories", "inputs"], "all add sequences up to the depth bound over values at, just inside and just outside bin boundaries, for uniform, growable, log and approximate kinds",
 "the histogram test is not registered; boundary and rescale behaviours depend on single values.",
 [I+"StatsHistogram.hpp", S+"StatsHistogram.cpp"], [("bin index arithmetic", S+"StatsHistogram.cpp"), ("rescale", S+"StatsHistogram.cpp")])
prop("P18", "Sequences, autocovariance, moving averages and named statistics",
 """A sequence statistic with room for a given even number of values keeps, however many were added since the last reset, the sum, mean or maximum (as chosen) of consecutive equal-sized buckets in order, with the smallest power-of-two bucket size whose buckets fit, leaving out an incomplete last bucket.
 Autocovariance and autocorrelation at each lag equal their definitions over all values since the last reset, and autocovariance is 0 where no two values are that far apart; an exponential moving average is the plain mean until more values than the inverse of the decay rate have been seen and from then on moves by that fraction towards each new value.
 A statistic made by name has the kind registered for that name, or else for the name after dropping as few trailing dash-separated parts as needed, or else the default kind.""",
 ["histories", "inputs"], "all value sequences with resets to the depth bound for several capacities, merge modes, lags and decay rates, and all registrations of a few related names",
 "stats_sequence test feeds one series; the doubling boundaries, negative values and short series are not enumerated.",
 [I+"StatsSequence.hpp", S+"StatsSequence.cpp", I+"StatsSeries.hpp", S+"StatsSeries.cpp", I+"StatsEMA.hpp", S+"StatsEMA.cpp", I+"StatsMaker.hpp", S+"StatsMaker.cpp"],
 [("bucket doubling", S+"StatsSequence.cpp StatsSequence::add"), ("lag products", S+"StatsSeries.cpp StatsSeries::autocovariance"), ("mean then exponential", S+"StatsEMA.cpp StatsEMA::add"), ("prefix lookup", S+"StatsMaker.cpp StatsMaker::getDefaultStatDef")])
prop("P19", "Tuple statistics and cubes equal brute-force aggregation",
 """For any sequence of (tuple, value) additions, the base table holds for every distinct tuple the statistics of exactly its values; walking visits every entry once (in tuple order when asked), and walking with zeros visits every combination of coordinate values in use, or of the chosen values, exactly once with the entry's own statistics or an empty (if asked for, single zero) one.
 Cubing gives exactly the generalisations, with any set of positions replaced by a wildcard, that the filter accepts (by default those with at least one wildcard), each combining, by the chosen function, every base entry that matches its remaining positions; ordered walks put a wildcard after every value.
 Pruning removes exactly the entries the predicate accepts from the base table or the cube, clearing empties them, and no statistics object is lost or freed twice.""",
 ["inputs", "histories"], "all addition multisets up to a bound over small tuple domains of 1 to 3 dimensions, with and without zero-fill, rollup restrictions and pruning",
 "tests check one or two hand data sets.",
 [I+"HashTupleStats.hpp", I+"StatsCube.hpp", I+"Tuples.hpp"], [("rollup by partial tuples", I+"StatsCube.hpp StatsCube::cubeAddOne"), ("zero fill", I+"HashTupleStats.hpp zeroAxisWalk")])
prop("P20", "Tuple comparison and hashing are consistent total orders",
 """For plain tuples, tuples of optional elements and partial tuples of every length and mix of element types, two tuples are equal exactly when every position is equal, a wildcard being equal only to another wildcard whatever value is hidden behind it; ordering is the strict lexicographic order with a wildcard after every value, so exactly one of less, equal, greater holds and sorting is unambiguous.
 Equal tuples have equal hashes by every way of asking, so they are one key in hash maps and sets, and assigning a plain tuple to an optional one leaves no wildcard.""",
 ["inputs"], "all pairs and triples of tuples over small domains with every used/any mask",
 "tests compare a handful of tuples.",
 [I+"Tuples.hpp"], [("recursive cons comparison", I+"Tuples.hpp lintel::tuples")])
prop("P21", "Random generators are deterministic, in range and unbiased by construction",
 """For any seed or non-empty seed array the main generator produces the reference 32-bit Mersenne Twister sequence, and the small generators their published recurrences (the four-word xorshift with shifts 15, 4, 21; the complementary multiply-with-carry of each size); the sequence depends on the seed alone, not on the memory the generator lies in, and seeding again restarts it, dropping any boolean bits left over. A draw below n is the 32-bit word modulo n; the unbiased draw refuses only the incomplete last group of n words (at most one group more), so every result is equally likely; floating draws lie in their documented half-open or closed interval for every underlying word, and bit-wise boolean draws use each of 64 bits once. Shuffling returns a permutation of its input, the same one for the same seed, and every arrangement can occur.""",
 ["inputs", "histories"], "seeds and seed arrays around the state size against an independent reference implementation, and every boundary value of the underlying word through an injected generator",
 "tests compare the first outputs of one seed and sample ranges; the extreme words have probability 2^-32.",
 [I+"MersenneTwisterRandom.hpp", S+"MersenneTwisterRandom.cpp", I+"RandomBase.hpp", I+"MarsagliaRandom.hpp"], [("state initialisation and reload", S+"MersenneTwisterRandom.cpp"), ("rejection sampling", I+"RandomBase.hpp randInt")])
prop("P22", "Command line options parse to exactly what was given",
 """For any command line, each declared option (hidden testing options included) reports used exactly when it was given or set, with the value given (list options: all values of that command line in order) and its default otherwise, keeping what earlier command lines or a configuration file gave unless given again; undeclared options, positional arguments and everything after a bare "--" are returned unchanged and in order. Malformed, missing or repeated values, values for flags, and undeclared arguments where the caller allows none (naming the first) are refused with an error that leaves every option as it was; --help prints the usage, without hidden options, and ends the program successfully. The usage line is wrapped at the COLUMNS width (at least 10): no line is longer, a line that fits is not broken, a longer one breaks at the last space that fits if that lies in the second half of the width and otherwise exactly at the width, and nothing else changes.""",
 ["inputs"], "all argument vectors up to a length bound over a token alphabet, sequences of parses, configuration files; all usage texts up to a word bound at several widths",
 "program_options test runs about ten command lines.",
 [I+"ProgramOptions.hpp", S+"ProgramOptions.cpp"], [("wrapper over the parser", S+"ProgramOptions.cpp")])
prop("P23", "Logging shows exactly the messages enabled for their category and level",
 """A debug message is emitted exactly when its category's level is at least the message's level, the level being the one set last — by name, by a prefix ending in *, by a debug string or by the environment — among the settings that match the category, wherever and whenever the category is first mentioned (0 if none); other severities are always emitted, each message goes once to every appender (the console if there is none) with its text unchanged, and no setting affects a category it does not match. A refused setting (malformed, a level above 255, too many categories) or an appender that throws leaves the log usable. Concurrent first use, category creation, settings and logging never lose a category, a setting or a message, and appenders are never entered by two threads at once.""",
 ["histories", "inputs", "schedules"], "all orders of category creation, name/wildcard settings and environment parses up to the depth bound; all interleavings of two threads within a preemption bound",
 "the log test checks a fixed sequence of settings.",
 [I+"LintelLog.hpp", S+"LintelLog.cpp"], [("category table", S+"LintelLog.cpp LintelLog::registerCategory"), ("wildcards", S+"LintelLog.cpp LintelLog::wildcardMatch")])
prop("P24", "A failed assertion is reported, runs its hooks and never continues",
 """A failed assertion or fatal error never lets execution continue past it: hooks registered to run before the report run once each in registration order, then a report giving file, line, failed expression and formatted message goes to standard error after everything the program had written before, then the hooks registered to run after it run likewise, and the process ends by the abort signal.
Every hook taking arguments gets the expression, file, line and message; a hook that throws the library's assertion exception hands exactly these to the caller's handler, no later hook runs and later assertions work as before, while an assertion failing inside a hook is itself reported, runs no hook again and ends the process, and hooks that were cleared no longer run.
A condition is evaluated exactly once and, when it holds, its message not at all; a message whose format and arguments do not match still reports the failure.""",
 ["histories", "inputs", "fault_sequences"], "all histories of hook registrations, clearing and assertions to depth 5 (6 thorough) over eight kinds of hook; every pair of fourteen assertion forms with every pair of hooks and three dispositions of the abort signal; up to eight hooks",
 "the assertion test exercises a fixed list of failures with one hook at a time and cannot look past the abort.",
 [I+"AssertBoost.hpp", S+"AssertBoost.cpp"], [("failure path", S+"AssertBoost.cpp AssertBoostFail"), ("recursion guard", S+"AssertBoost.cpp AssertBoostCleanupRecurse"), ("macros", I+"AssertBoost.hpp INVARIANT, FATAL_ERROR")])
prop("P25", "Thread wrappers give mutual exclusion, no lost wakeups and faithful joins",
 """Under every interleaving, at most one thread is inside a mutex or scoped lock, which is released on every exit including by exception (a scoped unlock gives it up only for its own scope), try-lock fails exactly when the mutex is held, and error-checked
 mutexes report misuse; a condition waiter resumes only holding its mutex, is not lost if signalled after it waits, and a timed wait or lock reports a timeout only once its time has passed. Joining a thread runs it exactly once and returns its result after it finished
 (detached or already joined threads cannot be joined, signal-blocking threads leave the parent's mask alone), and lock-order checking reports a violation exactly when a thread takes a level not above the one it holds.""",
 ["schedules"], "all interleavings of two to four threads with one to three operations each within a preemption bound of 2-3 (3-4 thorough), including signal target choice, timeouts and spurious wakeups; all nestings of ordered locks to depth 3",
 "the pthread test runs real threads free; the scheduler chooses a negligible part of the interleavings.",
 [I+"PThread.hpp.in", S+"PThread.cpp", I+"SimpleMutex.hpp", S+"SimpleMutex.cpp", I+"LockOrderingGroup.hpp"], [("scoped lock", I+"PThread.hpp.in PThreadScopedLock"), ("cond wrapper", I+"PThread.hpp.in PThreadCond"), ("thread starter", S+"PThread.cpp")])
prop("P26", "Atomic counters are linearizable",
 """Concurrent operations on an atomic counter (increment, decrement, add, load, store, exchange, compare-and-exchange, bitwise or/and/xor, and their operator forms, on counters of every width or on plain words) behave as if performed one at a time in an order consistent with real time: every returned value is the one that
 order gives, no update is lost, and exactly one decrement observes zero.""",
 ["schedules"], "all interleavings, at the granularity of machine instructions touching the counter, of two or three threads with one or two operations each within a preemption bound, for each width; all operations on every 8-bit value sequentially",
 "the test uses free-running threads; a non-atomic update is lost only under a narrow interleaving.",
 [I+"AtomicCounter.hpp"], [("locked read-modify-write", I+"AtomicCounter.hpp Atomic::fetch_add, x86Gcc_compare_exchange")])
prop("P27", "The byte hash is the published function of the content alone",
 """Hashing bytes gives, for every length, content, alignment and previous hash, the value of Bob Jenkins' published 1996 hash with that previous hash as its start (1972 by default), reading no byte outside the key; strings and C strings hash as their bytes.
 Integers of up to 32 bits hash to their own bits, 64-bit integers and pointers to the published mix of their low word, high word and 1972, a type's own hash function is used where it has one, and equal values have equal hashes.""",
 ["inputs"], "all strings of up to two bytes; every length to 50 (thorough 80) with every position altered, all alignments, six previous values; all strings over a small alphabet; all triples of boundary words; against an independently written reference",
 "the test compares a few fixed keys; a tail length or a high byte mishandled changes only some keys.",
 [I+"HashFns.hpp", S+"HashFns.cpp"], [("byte hash", S+"HashFns.cpp lintel::bobJenkinsHash"), ("typed dispatch", I+"HashFns.hpp lintel::detail::HashDispatch")])
prop("P28", "Line fitting, elimination, normal distribution and rounding are accurate",
 """A fitted line minimizes the weighted sum of squared vertical distances from the points added since the last clear, also for points far from the origin, and fewer than two points, points that all have the same x, and weights not above zero are refused.
Eliminating the first columns of a matrix returns the rank of those columns, keeps the row space, leaves zeros there below the eliminated rows, and leaves the identity there when every one of them was eliminated; a resized matrix is all zero and its former memory is given back.
The inverse error function inverts the error function everywhere between -1 and 1 and is not-a-number outside, the normal density, distribution and its inverse agree with it, a number counts as integral exactly when it is less than a sixteenth from an integer of the wanted size and sixteenths are still representable near it, conversion to an integer rounds to the nearest with halves away from zero, and of two finite numbers exactly one of approximately less, equal and greater holds.""",
 ["inputs", "histories"], "all point sets to size 4 (5) over grids with weights and offsets to 1.25e9; all matrices of ten shapes over two to five values and every number of leading columns; the inverse error function on a grid of 5000 (20000) points both sides, all powers of two and their complements; integers of all sizes with thirteen fractions; pairs of values around the tolerance",
 "the tests fit one data set, eliminate three matrices and look at a handful of values.",
 [I+"LeastSquares.hpp", S+"LeastSquares.cpp", I+"Matrix.hpp", S+"Matrix.cpp", I+"MathSpecialFunctions.hpp", S+"MathSpecialFunctions.cpp", I+"Double.hpp", S+"Double.cpp"], [("line fit", S+"LeastSquares.cpp LeastSquares::fitLinearVertical"), ("elimination", S+"Matrix.cpp Matrix::gaussEliminate"), ("inverse error function", S+"MathSpecialFunctions.cpp inverseErf"), ("integrality", S+"MathSpecialFunctions.cpp isDoubleIntegral")])
prop("P30", "Process manager reports every child exactly once with its status",
 """Each child started through the process manager is reported exactly once, with its own process id and exit status, to its exit callback (if it has one), and at most once in what waiting calls return, wherever its exit lands between the manager's system calls and whatever the callbacks themselves do; the list and number of children are always those started and not yet reaped.
 A wait returns soon after a child exits or its time limit passes and not before, waiting for one process returns that process's status or nothing when it is not a child, waiting for all leaves none, a signal function is given the manager and cannot wait, and a failing callback or signal function loses no child.
 A child runs its command with its output sent where asked, and a manager that goes away terminates its remaining children unless told not to, and no other process.""",
 ["schedules", "histories", "fault_sequences"], "all placements of child exits between system calls for up to 3 children and scripts of fork/wait operations, with interrupted calls",
 "the test forks real children with sleeps; relative timing is not controlled.",
 [S+"Lintel/ProcessManager.pm"], [("waitpid loop and SIGCHLD", S+"Lintel/ProcessManager.pm")])
prop("P31", "File locks exclude each other and are always released",
 """Two holders never hold the lock on the same file at once, in different processes or the same one; an attempt with a wait time gets the lock if it is free, gives up only when that time has passed with the lock still in use, and reports any other failure of locking as an error; an attempt without one waits until it gets the lock, which it does once the lock is free.
 The lock is released when its handle goes away or its process exits or is killed, and taking it keeps the file's contents and honours the open flags and access mode given.
 The lock command runs its command only while holding the lock, passes on its exit status (never success when it was killed or could not run or the lock was not obtained), and in its caller mode holds the lock until it is unlocked or the caller ends.""",
 ["schedules", "fault_sequences"], "all interleavings of two processes' lock/unlock/exit steps with every mode combination",
 "the flock test runs one timing-based scenario.",
 [S+"perl/File-Lock.pm", S+"lintel-flock.in"], [("fcntl/flock wrapper", S+"lintel-flock.in")])
prop("P32", "Batch runs do every item once, leave no partial output and lose no data",
 """A run performs every work item it found exactly once, locally or divided over batch jobs, within the given group size, number of groups or number at once; its module is told of each item's success or failure, and a dry run performs none. If the run, a step or a command is stopped or fails at any point, each destination file is absent, as it was, or complete, and running again completes the rest. Compressing, whatever the file names, removes a source file only once all its data is in the destination; damaged input, failed writes and two sources for one destination are reported and lose nothing.""",
 ["inputs", "crash_points", "fault_sequences"], "all item counts up to a bound against all group sizes, job indices and ranges; a crash or error at every step of producing an output",
 "batch-parallel has no registered test.",
 [S+"batch-parallel.in", S+"BatchParallel/common.pm"], [("group partition", S+"batch-parallel.in"), ("temporary + rename", S+"BatchParallel/")])
prop("P33", "Database helper transactions and SQL splitting are all-or-nothing and exact",
 """Work run in a transaction is committed exactly once when it succeeds; when its function or any database call fails, nothing of it is kept and its own error is raised, whatever rolling back does.
 Splitting a script into statements ends on every input and gives exactly the pieces up to and including each semicolon outside strings and comments; setting up a schema ends at the wanted version or with an error, applies each step once, in order and wholly, and records the version reached; configuration values read back as last set, and reserved names are refused.
 The row readers return the rows of the statement run with the given arguments, and the one-row and one-value readers fail whenever the result has any other number of rows or columns than they promise.""",
 ["fault_sequences", "inputs"], "a failure injected at every database call of each operation; all scripts up to a length over an alphabet of quotes, comment markers, semicolons, newlines and text against a reference lexer; all version states",
 "the DBI test uses a few literal scripts and is skipped parts without a database.",
 [S+"Lintel/DBI.pm"], [("transaction wrapper", S+"Lintel/DBI.pm"), ("statement scanner", S+"Lintel/DBI.pm nextStatement")])
prop("P34", "Range expansion yields exactly the strings the ranges denote",
 """Expanding a string with bracketed lists gives exactly one result for each way of choosing one number from each list, the first list varying slowest; a list is numbers, ranges low-high and stepped ranges low-high%step separated by commas, and stands for exactly the numbers it names in order, ends included: single numbers as written, those of a range padded with zeros to the ends' width when both ends have equally many digits and in plain decimal otherwise.
Strings without such a list come back unchanged, several strings together give exactly the results of each, and the arguments are not altered.
A range that runs backwards, a step that does not end exactly on the high end, and a malformed entry raise an error instead of giving part of the results.""",
 ["inputs"], "every string of up to 6 (8 thorough) characters over a letter, brackets, digits, comma, dash and percent; every list body of that length; every range with ends to 14 (25), widths to 3 and steps to 6; two and three lists; tuples of strings",
 "no test covers it.",
 [S+"Text/Expand.pm"], [("expander", S+"Text/Expand.pm expandString")])
prop("P35", "Host key lookups and removals touch exactly the asked host's entries",
 """A host counts as having a key exactly when the known-hosts file has a line whose first name is the host in any letter case, or, when the installed ssh is version 4 or later, a hashed line for the host or its address; asking never changes the file.
Clearing a host removes exactly those lines and the lines whose last name is the host's address, keeps every other line byte for byte and in order as well as the file's mode and a link to it, and writes nothing when there is none to remove; names and addresses are compared literally.
A missing file and an unknown host are errors, and a removal that cannot be written out completely is an error that leaves the file as it was and no other file behind.""",
 ["inputs", "fault_sequences"], "every known-hosts file of up to 2 lines of eighteen kinds (3 lines of eight kinds; 3 of all, 4 of five thorough), six hosts and four ssh versions; the disk full after every third (every) number of bytes",
 "no test covers it.",
 [S+"Lintel/Net/SSH/KnownHostsFile.pm"], [("matching", S+"Lintel/Net/SSH/KnownHostsFile.pm remove_host_key"), ("rewriting", S+"Lintel/Net/SSH/KnownHostsFile.pm clear_host_key")])
prop("P36", "Checked casts, range comparison and small helpers are exact or refuse",
 """A checked downcast or cross-cast, of a plain or a shared pointer, gives the wanted part of exactly the same object (a shared pointer sharing its ownership) and fails an assertion exactly when the object is not unambiguously of the wanted class; a null pointer passes a downcast as null and is refused by a cross-cast, and making a reference of a null pointer is refused.
Two ranges compare equal exactly when they have the same length and equal elements in order, whatever kind of iterators they are given by, and neither is read at or past its end.
A file's modification time is its exact number of nanoseconds, before 1970 too, and a missing file is refused; the test macros for assertions pass exactly when an assertion fails with one of the given messages, run their code once and leave no hook behind.""",
 ["inputs"], "every class of object of a hierarchy with multiple, virtual and repeated bases x every pair of source and target class, plain, const and shared; all pairs of ranges up to 5 (6) elements of 2 (3) values by five kinds of iterator; 13 seconds x 8 nanosecond values; 5 outcomes x up to 3 messages in every position",
 "the tests cast two classes, compare a few vectors and never see a macro fail.",
 [I+"PointerUtil.hpp", I+"STLUtility.hpp", I+"FileUtil.hpp", I+"TestUtil.hpp"], [("casts", I+"PointerUtil.hpp safeDownCast, safeCrossCast, safeRef"), ("range comparison", I+"STLUtility.hpp iteratorRangeEqual"), ("file times", I+"FileUtil.hpp modifyTimeNanoSec"), ("test macros", I+"TestUtil.hpp TEST_INVARIANT_MSGVEC")])
prop("P37", "Time axis marks stand at the moments their labels name",
 """For every span of time from 1970 on and every time zone, the marks of a time axis come in increasing order, at most 21 of them, inside the span (from marks a day apart on, to within an hour), and each stands, counted in seconds or in hours from the start of the span as asked, exactly at the local time its label gives: a date alone for midnight (or the start of that day for weekly and monthly marks), otherwise a time of day.
Below 12 days the marks are exactly one step apart, all through the span and counted from a local midnight before it, the step growing with the span from 30 seconds to a day, and daily marks stay at midnight when the clocks change by an hour (not at midnight itself); up to 84 days they stand on the same weekday every week, and beyond that on the same day of the month, at least an eleventh of the span apart, the last one at the end of the span.
Nothing else is printed.""",
 ["inputs"], "nine time zones (whole and part hours, both hemispheres, clock changes at midnight and of half an hour) x starts around clock changes, leap days, month and year ends x every length limit and both neighbours; every hour and minute around clock changes",
 "no test covers it.",
 [S+"Plot/Mercury/Tics.pm"], [("short spans", S+"Plot/Mercury/Tics.pm plottics"), ("weeks and months", S+"Plot/Mercury/Tics.pm plottics_large")])
prop("P38", "Times read with the cycle counter follow the system's time",
 """A fast time reading equals the system's time of day at the clock's last accepted calibration plus the counter's advance since the middle of that measurement at the calibrated rate; it is the system's time itself, measured anew, when there is none, the counter is not above its previous reading, more than the recalibration interval has passed or been set anew, or scaling forbids the fast way.
A measurement during which the counter did not advance, or advanced at least twice as much as usual, is not accepted: its time is returned, the next reading measures again, and it is recorded; clocks, one per thread, do not influence each other, and per-thread set-up by several threads at once calibrates once, before any of them goes on.
Calibration finds the counter's rate within 2 % and in under 0.4 seconds however one of its steps is held up (by up to 20 ms) or its processor changed; the six frequency scaling modes refuse, warn, or use the system's time exactly when documented, judging every processor's limits and governor.""",
 ["histories", "schedules", "fault_sequences"], "a virtual machine's counter, time of day and scaling files: 4 (5) readings x 11 events (3 (4) x 15) x 4 (6) kinds of measurement, two clocks; seven disturbances at every third (every) operation of a calibration on two processors; 14 machines x 7 modes x order of calls; a second thread at 24 points of the first one's calibration",
 "the test reads a real clock on a quiet machine.",
 [S+"Clock.cpp", I+"Clock.hpp", S+"ClockPThread.cpp"], [("fast reading", I+"Clock.hpp todccTfrac_incremental"), ("recalibration", S+"Clock.cpp todccTfrac_recalibrate"), ("calibration", S+"Clock.cpp calibrateClock, initialMeasurements"), ("threads", S+"ClockPThread.cpp")])
prop("P39", "Checked system calls and throwing assertions never hide a failure",
 """A checked system call (close, duplicate, pipe, open, read, write, seek, wait, fork, signal) makes the call once with the arguments given, returns exactly what it gave, and fails an assertion naming the system's error exactly when it failed; the exact read also fails when fewer bytes came.
Reading a wanted number of bytes returns that many, in order and whatever pieces they arrive in, or all there are before the end of the file, and asks for and stores none beyond them.
An assertion that throws evaluates its condition once and, when that does not hold, throws the chosen exception carrying the condition's text, the file, the line and the whole formatted message of any length; otherwise its message is not formatted.""",
 ["inputs", "fault_sequences"], "ten calls x argument values x success and twelve errors; every way up to 7 (10) bytes arrive in pieces, end early or break; every throwing form x 18 message lengths around the powers of two",
 "the tests make no call fail and throw no assertion of this kind.",
 [I+"Posix.hpp", I+"AssertException.hpp", S+"AssertException.cpp"], [("checked calls", I+"Posix.hpp"), ("reading a number of bytes", I+"Posix.hpp readN, read0"), ("message", S+"AssertException.cpp stringPrintF")])
prop("P40", "Experiment database helpers report every failure and stop at it",
 """A key file gives the DSN, user and password of the first line whose first word is exactly the key asked for, nothing when there is no such line or file, and an error when that line has more words or its second word is no DSN; statement helpers connect on demand, send each statement exactly once as given, and fail exactly when connecting, preparing or executing fails or the number of rows is not the one expected; reconnecting leaves a healthy connection alone and replaces a lost one, with the parameters of the latest connect, trying until the server answers.
Creating an experiment fails before changing the database when its name, an input column or a valid column name is missing or a column appears twice, whatever was refused before, and otherwise inserts one row and creates the table of the identifier found for it with exactly the columns given; finding one fills in the description from the only row matching everything specified, and otherwise fails with the description unchanged.
Reloading a module executes the first file of that name in the search path (also of relative directories) exactly when its modification time is not the one at its last successful reload, and fails exactly when there is none or it does not compile, dies or returns false.""",
 ["inputs", "histories", "fault_sequences"], "key files of 2 (3) lines of each kind x keys; every helper x state of the connection x failing step x row count; reconnects after 0-3 (4) failing attempts; descriptions with up to two input and output columns of six (eight) kinds x failing statement, corrected and made again; every sequence of 3 (4) module changes and reloads",
 "no test covers it (the database driver is absent).",
 [S+"Plot/Mercury.pm"], [("key files", S+"Plot/Mercury.pm getDSNbykey"), ("connections", S+"Plot/Mercury.pm connectToDB, reconnectToDB"), ("statements", S+"Plot/Mercury.pm sql_exec, sql_command, sql_unique_row"), ("experiments", S+"Plot/Mercury.pm create_experiment, find_experiment"), ("reloading", S+"Plot/Mercury.pm reload_use")])
prop("P41", "Truncated log-normal fits have the wanted mean and deviation",
 """For every positive mean, deviation and limit, the program drawing truncated log-normal numbers either reports parameters of a log-normal distribution that, cut off at the limit, has that mean (to a hundredth of the deviation) and that deviation (to 1 %), or exits with status 2 and no number; the latter always when the limit is not above the mean or the deviation is larger than any such distribution has, and never when it is at most nine tenths of that and the limit at most 100 means.
The number printed for an integer is the same every time, not negative and not above the limit, it comes within seconds wherever a distribution is reported, and the numbers of the integers from 0 on follow that distribution.
Arguments that are too few, too many, not numbers, or not positive give status 1, a usage message, and no output.""",
 ["inputs"], "every list of up to 4 (5) words out of 9; 4 (8) scales x 11 (20) limits x 10 (24) deviations, the largest possible one known in closed form; 25 (192) distributions x 900 (4000) integers",
 "no test runs the program.",
 [S+"drawRandomLogNormal.cpp"], [("fit", S+"drawRandomLogNormal.cpp solveLogNormal, momentLogNormal"), ("numbers", S+"drawRandomLogNormal.cpp normal_random_limit"), ("arguments", S+"drawRandomLogNormal.cpp main")])
prop("P42", "Platform, processor count and process sizes are the true, current ones",
 """The platform is taken from the two environment variables when both are non-empty, running nothing; otherwise deptool is run once (through perl when the variable with its path is non-empty, else from the search path) and the platform taken from the two export lines it prints, however long its lines are and whatever else it prints: all values are empty when there is no such program, an assertion fails when one of the lines is missing, a value is empty or not enclosed in quotes with only the semicolon after them, or the system name has no dash (system and version are split at the first), and no open file or process is left behind by an answer.
The processor count is the number in the environment when that is set (anything but a number above zero fails an assertion), else the number of processors the system lists, and stays what it was first.
A fresh process size (address space or resident, in bytes) is the one the operating system reports for that process at that moment, a cached one that of the last refresh of both, and asking about a process that does not exist any more, or an invalid kind of size, fails an assertion.""",
 ["inputs", "histories"], "every setting of the three variables x programs present; every deptool output of up to 3 (4) lines of 16 kinds x exit status; every processor list of up to 4 (5) lines x 9 settings; every sequence of up to 4 (6) changes of another process's memory, its end, and questions",
 "the tests ask once, in whatever environment they run in.",
 [S+"TestUtil.cpp", S+"PThread.cpp", S+"unstable/ProcessStatistics.cpp"], [("platform", S+"TestUtil.cpp lintel::getDeptoolInfo"), ("processors", S+"PThread.cpp PThreadMisc::getNCpus"), ("sizes", S+"unstable/ProcessStatistics.cpp ProcessStatistics::invalidate")])
if __name__ == "__main__":
    p = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(p, "w") as f:
        for d in sorted(P, key=lambda d: d["id"]): f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
