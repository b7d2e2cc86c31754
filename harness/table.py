ASSUMPTIONS_COMMON = [
    "gcc 13 on x86-64 Linux, the Linux branches of the sources; the log calls "
    "of libulog (not installed) are replaced by a stand-in that only "
    "evaluates its arguments",
]
TABLE = {}


def add(pid, **kw):
    TABLE[pid] = kw


add('C08', src=['c08.c'],
    technique='bounded exhaustive enumeration of the input space on the real '
    'code against a reference model',
    oracle='reference encoder: base-128 digits of the (zigzag) number in '
    '128-bit arithmetic; addresses checked by AddressSanitizer in exactly '
    'sized buffers',
    bounds='all 16-bit values; 32/64-bit: all 2^b+-2^c+d (d in -3..3) and '
    'complements, +-70000, all products of 7-bit groups in {00,7f,01}; all '
    'destination sizes 0..max+2; every following byte; buffers of up to '
    '2^32+10 bytes; all pairs of 39 boundary values of any two types, one '
    'after the other at each alignment',
    bounds_thorough='as quick, groups in {00,7f,01,40}; all 32-bit values; '
    'all 64-bit values whose bits lie in a run of 22, and complements',
    cases_are_traces=True)
add('C09', src=['c09.c'],
    technique='bounded exhaustive enumeration of the input space on the real '
    'code against a reference model',
    oracle='reference decoder in 128-bit arithmetic; addresses checked by '
    'AddressSanitizer in exactly sized buffers',
    bounds='all strings up to 3 bytes for 16 bits and 2 bytes for others; all '
    'strings up to max+1 bytes over 12 (<=4 bytes), 7 (<=6) or 3 (longer, '
    'last byte over 12) boundary bytes; every single byte in runs of '
    'continuation bytes of length 1..14; buffers of up to 2^32+10 bytes; all '
    'pairs of 28 texts of any two types at each alignment',
    bounds_thorough='as quick with 12, 10 and 4 boundary bytes; all strings '
    'of 3 and 4 bytes for 32 and 64 bits; all 2^28 strings of 4 continuation '
    'bytes followed by 15 fifth bytes for 32 bits',
    cases_are_traces=True)

NOT_APPLICABLE = {}
SCHED_ASSUME = [
    'sequential consistency between scheduling points; unsynchronized '
    'accesses are excluded by the vector-clock race detector, so every '
    'interleaving of synchronization and kernel operations covers all '
    'executions', 'the pipe, poll, mutex, condition and clock model of '
    'mc/vk.c and mc/fibers.c (pipe compared with the real kernel by C04)']
add('C01', src=['c01.c'], variant='sched', opt=['-O0'],
    technique='stateless model checking of the real code: exhaustive '
    'interleavings under a controlled scheduler, happens-before state '
    'caching, vector-clock race detection',
    oracle='a FIFO of the accepted messages; race detector; byte-exact heap '
    'bounds',
    bounds='1 producer x 1 consumer, 2-3 pushes, all interleavings, 1 '
    'spurious wake-up, 1 early timer; ring cursors 0..18 bytes from the end; '
    'sizes 0,1,5,9; nearly full rings with 0..14 bytes of room; messages of '
    '30000..65532 bytes across the end; 13 maximum sizes at creation, each '
    'filled to refusal; histories of 200000 messages, and of more than 4 GB; messages of every size; all '
    'sequences of 4 operations over two mailboxes',
    bounds_thorough='as quick, up to 4 pushes, every size combination',
    assumptions=SCHED_ASSUME)
add('C02', src=['c02.c'], variant='sched',
    technique='stateless model checking of the real code: exhaustive '
    'interleavings under a controlled scheduler, happens-before state caching',
    oracle='in every state where no call is in progress, pollability of the '
    'descriptor equals non-emptiness of the reference queue',
    bounds='1-3 pushes of every kind || polling, draining or blind reader, '
    'all interleavings, 1 spurious wake-up, 1 early timer, empty to full '
    'ring; all sequences of 6 operations of one thread, of 4 over two '
    'mailboxes; up to the 16384 messages the ring holds, also with pipes of '
    'one and two pages; histories of 70000 messages',
    bounds_thorough='as quick with 4 pushes, every fill level, 8 operations',
    assumptions=SCHED_ASSUME)
add('C03', src=['c03.c'], variant='sched',
    technique='stateless model checking of the real code: exhaustive '
    'interleavings with virtual time under a controlled scheduler',
    oracle='reference fill level and virtual clock; deadlock detection',
    bounds='1-3 blocking pushes || 1-7 reads, all interleavings, up to 2 '
    'spurious wake-ups and 1 early timer; 8 delays x 3 clock fractions x 6 '
    'fill levels; 15 delays x 42 clock values alone; the wall clock set once or '
    'twice at any instant by 8 amounts; all sequences of 5 '
    'operations over 9 sizes; pushes blocked by empty messages; every maximum '
    'size at creation',
    bounds_thorough='as quick with 3 spurious wake-ups, 6 operations',
    assumptions=SCHED_ASSUME)
add('C04', src=['c04.c'], variant='sched',
    technique='stateless model checking of the real code: exhaustive '
    'interleavings and interruptions at system call granularity over a pipe '
    'model, itself replayed against the running kernel',
    oracle='per-producer FIFO of the accepted messages, byte-exact; '
    'readability equals non-emptiness; virtual clock; pipe model compared '
    'with pipe(2) on every sequence of 5 calls',
    bounds='2 producers x 2+1 messages of every kind (3 x 1 blocking) x 1 '
    'consumer, all interleavings, 1 interruption at any call, 1 early timer; '
    'pipes of 1 and 2 pages; sizes 1..4095; waits of 7 delays cut in 3 manners '
    'with 70 periods; all sequences of 7 operations of '
    'one thread with 2 interruptions, of 5 with 2 errors of 10 kinds; of 5 over '
    'two mailboxes of 4 sizes, destroyed and made anew, descriptors from 0 '
    'and 4000; histories of 70000 messages of 4 sizes; mailboxes of every size '
    'filled and emptied twice',
    bounds_thorough='as quick with 9 operations and 3 interruptions, '
    'interrupted triples of producers, conformance to depth 7',
    assumptions=SCHED_ASSUME)
FS_ASSUME = [
    'file system model of mc/vfs.c: names are changed atomically, their '
    'changes reach the storage in order (any prefix may survive a power '
    'loss), the data of a file reaches it by fsync and otherwise not, wholly, '
    'by half or as zeros; an fsync failing by EIO, ENOSPC or EDQUOT loses the '
    'pages',
]
add('C05', src=['c05.c'],
    technique='exhaustive crash-point and fault enumeration on the real code '
    'over an in-memory file system model',
    oracle='content of the target is the old or the new bytes according to '
    'the stage, read from the model; synchronized flag after success',
    bounds='4 previous files x 3 leftovers x 15 histories of up to 3 writes '
    'in 5 manners, commit or rollback: crash at every operation with every '
    'surviving prefix and 4 kinds of torn data; all single faults with 6 to '
    '13 errors, all pairs of faults, all pairs of a fault and a crash; all path lengths below 300; some 800 names with every byte; files of '
    '64 to 256 KiB, writes around 2^31 and 2^32 items or bytes; 70000 commits and '
    'rollbacks; 66000 writes',
    bounds_thorough='as quick, and all triples of faults',
    assumptions=FS_ASSUME)
add('C06', src=['c06.c'],
    technique='exhaustive crash-point and fault enumeration, nested in the '
    'recovery, on the real code over an in-memory file system model',
    oracle='after the final check the pair is byte for byte the old or the '
    'new one (checksums as written by an undisturbed commit), per stage',
    bounds='4 previous pairs x 7 histories of writes, commit or rollback: '
    'crash at every operation with every surviving prefix and 4 kinds of torn '
    'data, again at every operation of the check twice; '
    'all single faults with 6 to 13 errors, pairs of faults, fault and crash, a third of the '
    'triples of faults; all histories of up '
    'to 3 commits, rollbacks and checks with up to 2 crashes; pairs of 64 to 256 '
    'KiB; after a crash, all failures and pairs of failures of the check, then '
    'all failures with a crash; two versions with the same checksum; 66000 '
    'versions',
    bounds_thorough='as quick, all triples of faults, histories of 4',
    assumptions=FS_ASSUME + ['the check runs before a file with checksum is '
                             'opened again after a crash, as documented'])
add('C07', src=['c07.c'],
    technique='bounded exhaustive enumeration of the states of the files on '
    'the real code against the documented decision table',
    oracle='the table of include/futils/safew.h over the classes of contents',
    bounds='the product of 5 contents of each payload (one with the checksum '
    'of another) by 10 of each checksum (absent, matching either, empty, corrupted, cut at 0..3 bytes), for 20 '
    'sizes up to 256 KiB, 3 checks in a row; every byte of payloads of 1..69 and 4097 bytes '
    'altered, and those around every page of 3 payloads of 64 to 132 KiB, every '
    'cut and small extension, every bit of the checksum; of the product of 5 '
    'by 6 contents, all failures of the check with 2 to 6 errors and all '
    'pairs, for 2 sizes, each followed by 2 checks; payloads of up to 64 MiB '
    'altered or cut next to powers of two',
    bounds_thorough='as quick with triples of failures, payloads of 1..299 bytes, '
    'and of up to 2^32+5 bytes',
    assumptions=['altered contents have no checksum collision in the 32-bit '
                 'hash'],
    cases_are_traces=True)
add('C10', src=['c10.c'],
    technique='explicit-state exploration of all operation sequences on the '
    'real code, to a depth and to closure over the reachable contents, with '
    'allocation faults',
    oracle='reference list of (key, data) in insertion order, compared '
    'through every lookup and both walks after each operation; release '
    'counters; allocation accounting',
    bounds='all sequences of 5 operations (4 with an allocation failure '
    'anywhere) over 3 keys; all contents and orders reachable with 4 keys; 8 '
    'table sizes from 1 bucket to 1021; 300 keys in 7 patterns; up to '
    '200000 entries, 65600 of them in one bucket; null and shared data; every size to 2000, and huge '
    'sizes without memory; all sequences of 5 operations and lookups over 2 '
    'keys observed at the end only; all of 4 over two tables',
    bounds_thorough='sequences of 6 operations, contents over 5 keys, sizes '
    'to 140000')
add('C11', src=['c11.c'],
    technique='explicit-state enumeration: every primitive of the real code '
    'from every state of two lists, all links compared with a sequence model',
    oracle='reference sequences; the raw links of all nodes and heads, and '
    'canaries, after each operation',
    bounds='all distributions and orders of 5 nodes (4 for the walks) over '
    'two lists and outside; every operation with every argument; every '
    'subset of visited nodes deleted in 4 manners; bounded helpers over all '
    'byte pairs and boundary values of 8 types; lists of up to 2^20 nodes; '
    'two lists through two members, walks in walks, conditional arguments',
    bounds_thorough='as quick with 5 nodes for the walks, lists of 2^24 nodes',
    cases_are_traces=True,
    assumptions=['a list operation has no state but the links, so that single '
                 'operations from every state cover all histories'])
add('C12', src=['c12.c'],
    technique='bounded exhaustive enumeration of the input space on the real '
    'code against a reference model',
    oracle='128-bit integer arithmetic in nanoseconds; normalization of every '
    'value produced',
    bounds='all pairs of 40 boundary seconds (-2^61..2^61) x 33 boundary '
    'nanoseconds for differences, ranges (5 widths around the difference) and '
    'comparisons; additions of all boundary deltas of both signs and units '
    'and all powers of two +-1; differences and additions also with the '
    'result stored over an operand; conversions of all nanoseconds next to a '
    'microsecond of a second, all seconds next to a power of two',
    bounds_thorough='as quick, 8 times more seconds in the conversions',
    cases_are_traces=True,
    assumptions=['results which do not fit the type of the result are not '
                 'judged'])
add('C13', src=['c13.c'],
    technique='bounded exhaustive enumeration of the input space on the real '
    'code against a reference model',
    oracle='reference Gregorian calendar by counting; the text of each format '
    'printed from it; inverse conversions',
    bounds='every day of 1970-9999 at its first, last and another second, '
    'with 16 offsets in turn; every whole-minute offset of +-99:59 and every '
    '7th second of +-24 h at 19 instants; every second of 19 days; all '
    'buffer sizes 0..39 for each format; all pairs of calls among those; in '
    'UTC and in 6 other zones of the process, with summer time; some seconds '
    'of the first 25 hours of 1970 with every whole-minute offset; instants up to 2^63 near '
    'sums of two powers of two, with 9 offsets',
    bounds_thorough='every day at 8 seconds in all the formats, every second '
    'of the offsets',
    cases_are_traces=True)
add('C14', src=['c14.c'],
    technique='bounded exhaustive enumeration of texts and of operation '
    'sequences on the real code against a reference model',
    oracle='strict reference grammar and calendar for the well-formed texts; '
    'AddressSanitizer on exactly sized copies for all the others; a model of '
    'the parts set',
    bounds='26 texts of all notations: every byte at every position, every '
    'pair of positions over 18 characters, every part, removal, repetition '
    'and run; all texts up to 7 characters over 7; product of 6 date, 2 '
    'hour and 6 zone notations with boundary values; every second of a day, '
    'every offset, every date of 120 years; all sequences of 4 settings '
    'among 22; pairs of texts, two times set in turns; other zones of the '
    'process',
    bounds_thorough='as quick with texts up to 9 characters, sequences of 5',
    cases_are_traces=True,
    assumptions=['whether malformed texts are accepted or refused is not '
                 'judged, as they are parsed leniently by design'])
RND_ASSUME = [
    'the stream cipher is a good one: only how its output is used, seeded and '
    'erased is judged',
    'the bytes about to be handed out are found by content in the thread-'
    'local or static data of the library (else fixed seeds only, reported '
    'as capped)']
add('C15', src=['c15.c'], variant='plain', libdata=True,
    technique='bounded exhaustive enumeration of the raw random words fed to '
    'the real code, exact counting of the results',
    oracle='each value of the range obtained from equally many words; a '
    'rejected word is forgotten; for wider words a bit-linear map of full '
    'rank, and each maximum cuts that map exactly at its value',
    bounds='all words of 1 byte for the 256 maxima, all of 2 bytes for '
    'maxima next to powers of two and every 61st, all of 3 bytes for 6 '
    'maxima, with the 4 functions; every 16-bit maximum and those at powers '
    'of two +-3 and 5 patterns up to 64 bits at their boundary words; all '
    'words of the float, single bits, pairs and byte products for the others; '
    'runs of rejected words of every length to 380 bytes of the stream',
    bounds_thorough='as quick with every 16-bit maximum, 12 maxima of 3 '
    'bytes, all byte products of 8-byte words',
    cases_are_traces=True, assumptions=RND_ASSUME)
add('C16', src=['c16.c'], libdata=True,
    technique='bounded exhaustive enumeration of the raw random words, '
    'counts, lengths and allocation failures on the real code, exact counting '
    'of the results',
    oracle='length, padding and zero bits of RFC 4648; affine map of full '
    'rank from the stream to the characters; each string and each permutation '
    'obtained from equally many words; AddressSanitizer in exactly sized '
    'buffers',
    bounds='base16/32/64: all counts to 18 bytes with all lengths, every bit '
    'and neighbouring pairs of the stream; counts within 12 of 20 limits; '
    'strings: alphabets of 0 to 71 characters, counts to 12, all lengths; '
    'all words of 1 and 2 bytes; shuffles: all words for 2-4 items, all '
    'combinations of the bits that matter for 4-9 items, all first words for '
    '100-300 items, 17 sizes of items with and without memory; items of up '
    'to 262147 bytes, 3 of 2^31+4096 and 6 of 2^30+4096, up to 2^20 items '
    '(8 places at the ends and the middle), the first swaps of more than '
    '2^32',
    bounds_thorough='as quick, 4.5 GB of items, counts to 34 bytes, 3-byte words for 9 '
    'alphabets, all words for 4 items of 9 bytes',
    cases_are_traces=True, assumptions=RND_ASSUME)
add('C17', src=['c17.c'], variant='sched',
    technique='stateless model checking of the real code: exhaustive '
    'interleavings of the threads at atomic accesses and entropy requests, '
    'and all request sequences to a depth, each execution repeated under '
    '8 to 12 contents of the entropy',
    oracle='two bytes are the same byte of the stream iff equal under all 8 '
    'entropies; data depend on an entropy iff they change with it; bytes '
    'handed out searched in the thread-local and static state',
    bounds='all sequences of 4 requests among 18 (sizes around 44, 424, 468, '
    '512; reseeds, failed reseeds); all pairs after 576 first sizes; 3000 '
    'small requests of 12 kinds; requests of up to 70000000 bytes; each of '
    '66000 reseeds by another thread; 600 threads one after another; every bit of the '
    'seeds; 2 threads of up to 3 draws or reseeds each, 3 threads of 2 (at most 2 reseeds), all '
    'interleavings',
    bounds_thorough='as quick, a request of more than 4 GB, 1050000 reseeds, '
    'sequences of 5 requests, triples with up to 4 reseeds of '
    'programs',
    assumptions=RND_ASSUME[:1] + SCHED_ASSUME[:1])
add('C18', src=['c18.c'], libdata=True,
    technique='stateless model checking of the real code against every '
    'sequence of kernel answers, up to a number of deviations',
    oracle='success only when every byte of the buffer or seed was supplied '
    '(marked bytes; number of supplied bytes the seeded output depends on); '
    'recoverable sequences succeed; buffers checked by AddressSanitizer; '
    'descriptors counted',
    bounds='up to 5 deviations (up to 3 with 14 to 16 kinds of errors; 1, half, all but one or 0 bytes, EINTR, '
    'ENOSYS, EAGAIN, EIO, EPERM of getrandom; 3 errors of open; short, 0, '
    'EINTR, EIO, EAGAIN of read) for 14 lengths, seeding and reseeding; every '
    'split of 1 to 7 bytes with 3-4 errors; up to 100000 interruptions in a '
    'row, 20000000 bytes by 512, 100000000 at once; with a device whose '
    'descriptor is 0',
    bounds_thorough='as quick, more than 4 GB, with 6 deviations, splits of up to 9 bytes',
    assumptions=['the bytes supplied by the kernel are random'])
add('C19', src=['c19.c'],
    technique='bounded exhaustive enumeration of texts, sizes, limits and '
    'failures on the real code against a reference model',
    oracle='reference decoder and encoder of RFC 3629; AddressSanitizer on '
    'exactly sized buffers; blocks and conversions still open are counted',
    bounds='all texts of up to 4 characters over 12 (first and last of each '
    'length, next to the surrogates, U+FEFF, U+FFFF) with every output size, '
    'byte and character limit, 22 forbidden sets, 5 replacements (a quarter '
    'of the sets for 4 characters); all strings of 3 bytes, of 4 over 33 '
    'boundary bytes, of 5 over 7; each character of Unicode; long texts next '
    'to 16 powers of two, to 2^20; limits to 2^64, outputs to 2^32+4096 bytes; '
    'all pairs of 35 calls; up to 3 failures of memory or conversion',
    bounds_thorough='as quick with all the sets and replacements, sanitizing '
    'of all strings of 3 bytes, texts of 2^24 characters, strings of 5 over 24 boundary bytes',
    cases_are_traces=True,
    assumptions=['replacements which are forbidden themselves, null or not a '
                 'character are not judged'])
add('C20', src=['c20.cpp'],
    technique='bounded exhaustive enumeration of strings and paths on the '
    'real code against a reference model',
    oracle='character by character references; POSIX dirname and basename '
    '(two leading slashes may stay or become one); arguments compared with '
    'copies; AddressSanitizer; a failed allocation gives an exception or '
    'the exact answer, and leaves nothing',
    bounds='all pairs of strings of up to 4 bytes over 4 (null and 0xff '
    'included) and 7 over 2; all pairs of bytes; strings of 27 lengths to '
    '1050000 differing at one place; lower case of all strings of up to 5 bytes '
    'over 8; all paths of up to 9 characters over 4 and 6 over 7, components '
    'and runs of slashes of 28 lengths to 1050000; up to 2 failed allocations in each call on '
    '160 texts',
    bounds_thorough='as quick with strings of 17000000, strings of 9 over 2, 6 over 8, paths of 10',
    cases_are_traces=True,
    assumptions=['the C locale; paths have no null byte'])
add('C21', src=['c21.c'],
    technique='stateless model checking of the real code over an enumerated '
    'file system: all the small trees, all failures of the calls up to a '
    'number',
    oracle='recursive sum over the tree; any failed call to open or read a '
    'directory or an entry must give an error; open directories, descriptors '
    'and memory counted',
    bounds='all trees of up to 3 entries of 12 kinds, 4 of 8 kinds, 5 of 4 '
    'kinds on 4 levels, in all orders, with the dots first, last or missing, '
    'with and without types of entries, with 5 kinds of devices, inode '
    'numbers, permissions, blocks and times; up to 2 failures (1 for 3 and 4 '
    'entries; one by 11 to 14 kinds of errors); chains to 24 levels with a failure and to 2042 without; up to 1050000 entries; all lengths '
    'of names; paths within 10 bytes of the longest',
    bounds_thorough='as quick with 4 entries of 12 kinds, 6 of 4 kinds, 2 '
    'failures, 17000000 entries',
    assumptions=['the tree does not change during a call'])
add('C22', src=['c22.c'],
    technique='stateless model checking of the real code over an enumerated '
    'file system: all paths of a small length, all combinations of failures',
    oracle='the inodes really synchronized, recorded by the virtual kernel; '
    'parent folder found in the tree; the first error made must be the one '
    'returned',
    bounds='all paths of up to 7 characters over slash, dot, a file, a folder '
    'and a link, relative and absolute; 21 forms of paths with every '
    'combination of up to 5 failures of open, fsync, close, malloc with each '
    'error; paths of 22 lengths to 5000; descriptors numbered from 0',
    bounds_thorough='as quick with paths of 8 characters, 6 failures',
    cases_are_traces=True,
    assumptions=['a bare name, a folder or a path ending in dots may be '
                 'refused', 'a failure to close is not one to synchronize'])
add('C23', src=['c23.c'],
    technique='stateless model checking of the real code on a modelled event '
    'queue: all sequences of events, arrivals at every call and in every '
    'callback, failures',
    oracle='the events delivered over all the calls are those pushed, in '
    'order, with each field and byte; a call without failure delivers at '
    'least those pending at its start and none which happens during its '
    'callbacks; AddressSanitizer, memory and '
    'descriptors counted; the queue compared with the real one for names of '
    'all lengths',
    bounds='up to 4 events of 7 lengths; up to 2 arrivals before each '
    'system call and 2 in the callbacks, up to 3 failures, 3 calls; all '
    'totals from 16 to 11000 bytes made of n events of one length and up to 3 '
    'others; up to 66650 events; all sequences of up to 7 out of 3 events '
    'which come again identical, processed at any point',
    bounds_thorough='as quick with up to 6 events, 3 arrivals',
    cases_are_traces=True,
    assumptions=['one thread processes a descriptor at a time'])
add('C24', src=['c24.c'],
    technique='stateless model checking of the real code: all combinations of '
    'flags, all sequences of creations, uses and destructions to a depth '
    'with failures of every call',
    oracle='the flags of all the descriptors in the virtual kernel after each '
    'call; the set of open descriptors and blocks; fcntl compared with the '
    'real one on a pipe',
    bounds='32 prior x 32 added status flags x 8 others x 3 accesses; 256 '
    'descriptor flags; up to 2 refusals by 4 errors; 4 operations with 1 '
    'failure, 3 with 3 failures, 5 without, on 3 objects of 3 kinds, '
    'descriptors numbered from 0, 1, 2 or 700, limits of 0 to 5 descriptors; '
    '21 sizes; 600 objects at once, 66000 of each kind one after another',
    bounds_thorough='as quick with 5 operations and 1 failure, 6 without',
    cases_are_traces=True,
    assumptions=['fcntl does not fail on a pipe just created'])
add('C25', src=['c25.c'],
    technique='bounded exhaustive enumeration of the clock values and timings '
    'on the real code under a virtual clock, and of the failures of each '
    'call',
    oracle='integer arithmetic on the virtual clocks; the time really slept; '
    'the offset of the clocks, exact within what elapses between the readings '
    'and rounding',
    bounds='all pairs of 110 boundary values of the two clocks for readings '
    'and elapsed times; conversions of instants at 20 distances on both sides '
    'of now, with 10 timings of the readings; all sleeps below 80 s, within '
    '2000 ms of each power of two and every 19997th of the others, with up to '
    '3 interruptions; each millisecond of the wall clock at 7 places; up to '
    '3 failures; in 14 time zones of the process; each change of the offset '
    'of 4 zones over 6 years with 100 timings',
    bounds_thorough='as quick with all timings of all clock values, every '
    '997th sleep',
    cases_are_traces=True,
    assumptions=['neither clock is set during a call; results before 1970 are '
                 'not judged'])
add('C26', src=['c26.c', 'c26x.cpp'], variant='sched', opt=['-O0'],
    technique='stateless model checking of the real code: all interleavings '
    'to a preemption bound of each pair of operations under a controlled '
    'scheduler, vector-clock race detection',
    oracle='each thread gets what the same calls give alone; race detector '
    'over the memory of the library and the static state of libc functions '
    'which keep some; descriptors and blocks counted',
    bounds='all pairs of 26 sequences of calls which together use every '
    'function, on different objects, 2 preemptions at any system call, '
    'synchronization, callback or call; the same sequence in 3 threads, 1 '
    'preemption',
    bounds_thorough='all pairs with 3 preemptions, all triples with 1',
    assumptions=SCHED_ASSUME)
