"""What each check runs, at which bounds, and what it claims."""

REAL = 'the code under test is the unmodified library of the working tree, compiled with address and undefined-behaviour checks; a crash, hang or sanitizer report in an explored case is a violation'

CHECKS = {}


def check(prop, harness, flavour, level, technique, rule, bounds, level_note, **kw):
    CHECKS[prop] = dict(harness=harness if isinstance(harness, list) else [harness], flavour=flavour, level=level,
                        technique=technique, rule=rule, bounds=bounds, level_note=level_note, **kw)


check('C01', 'c01.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of sequence pairs against the definitions',
      'a pair of different sequences with a non-zero distance, or a pair of unequal lengths',
      {'quick': 'all ordered pairs over 5 value alphabets up to length 5/8/6/3/3; all pairs of subsequences of 3 datasets; 10x10 patterns at every length 1..260; 5 distances',
       'thorough': 'the same up to length 6/10/7/3/3, patterns up to length 520'},
      'Complete within the stated bounds; sequences outside the alphabets and lengths are not covered.',
      assumptions=[REAL, 'comparison tolerance 1e-9 relative to the magnitude of the data'])

PAIR_BOUNDS = {'quick': 'all ordered pairs of sequences (length 1..5 over {0,1,3}, 1..6 over {-2,1}, 1..4 over 4 values) with every band; every pair of lengths 1..22 with 25 pattern pairs and every band; 14 ratios on lengths to 25; 91 pairs of lengths up to 266 with 16 pattern pairs and up to 10 bands; 5 distances',
               'thorough': 'lengths to 6/8/5, every pair of lengths to 32 with 50 pattern pairs'}

check('C02', 'c02.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of sequence pairs and bands against a reference recurrence',
      'a finite non-zero warped distance', {k: v + ('; about 1470 ratios (all fractions to fortieths and their neighbours) at lengths 1..45' if k == 'quick' else '') for k, v in PAIR_BOUNDS.items()},
      'Complete within the stated bounds; the reference recurrence is itself compared with explicit enumeration of all alignments up to 3x3.',
      assumptions=[REAL, 'cosine and sorensen values are compared with the set of values reachable by any tie-breaking; sets larger than 64 (6 for the long pairs) per cell are counted and not compared'])

check('C03', 'c03.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of sequence pairs and bands, matching validated step by step',
      'a matching that is not the plain diagonal, or a rejected name', PAIR_BOUNDS,
      'Complete within the stated bounds.', assumptions=[REAL])

check('C04', 'c04.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of sequences, bands and cut-offs against reference values',
      'a call that was cut off, a positive lower bound, or an envelope of a positive width',
      {'quick': 'all ordered pairs of sequences up to length 4 over {0,1,3} and 5 over {-2,1}, every band, 9 cut-offs around the exact value, 10 distances; patterns at every pair of lengths to 16, and at 36 pairs of lengths to 258 with 8 bands; envelopes of all sequences to length 8 over 3 values, 11 over 2, 6 over 4, every width, and of patterns to length 600',
       'thorough': 'lengths 5/7, patterns to 24, envelopes to 9/13/7'},
      'Complete within the stated bounds. A cut-off within rounding of the distance is judged only where the arithmetic is exact.',
      assumptions=[REAL, 'the internal bound functions are called under their present names when they exist'])

check('C05', 'c05.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets and grouping options, partition checked on the listed groups',
      'a grouping with more than one group',
      {'quick': 'all datasets of 1..3 rows with up to 6 values over {0,1,3} (every shape) x 5 distances x 4 thresholds x whole-series flag, plus 2 threads; 69 larger datasets (up to 120 rows, up to 24 points, empty rows) x 5 x 6 x 2 plus 2..16 threads; 4 large datasets (300 short rows with hundreds of groups, two rows of 80 points, 18 rows of 3..20 points in either order) x 5 x 4 x 2 plus 2..33 threads',
       'thorough': 'up to 7 values, longer structured rows'},
      'Complete within the stated bounds; groups are observed through the documented text listing.', assumptions=[REAL])

check('C06', 'c06.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, thresholds and distances, tightness recomputed from the definitions',
      'a grouping with several groups of one length of which at least one has several members',
      {'quick': 'all datasets of 1..3 rows with up to 6 values over {0,1,3} x 5 distances x 7 thresholds (including exact ties); 69 larger datasets x 5 x 9 thresholds; 4 large datasets (300 short rows with hundreds of groups, two rows of 80 points, 18 rows of 3..20 points in either order) x 5 x 4 thresholds, whole series, 4 threads',
       'thorough': 'up to 7 values, longer structured rows'},
      'Complete within the stated bounds; ties at half the threshold are judged exactly for chebyshev and (power-of-two lengths) manhattan on integer data, up to rounding otherwise.', assumptions=[REAL])

check('C09', 'c09.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, groupings, bands and queries against an oracle over the listed groups',
      'a refused query, or an inexact best match chosen among several groups',
      {'quick': 'all datasets of 1..3 rows with up to 4 values over {0,1,3} x 5 distances x 2 thresholds x whole-series x 3 band ratios x every subsequence of the dataset and of two other series (lengths 1..6); 5..6 values over {0,2}; 66 structured datasets x 3 ratios; 4 large datasets (300 short rows with hundreds of groups, two rows of 40 points, 18 rows of 3..20 points in either order) x 5 x 4 thresholds x 2 ratios x 7 queries of 2..36 points; 32 queries of five points over {0,2}, each after each other one; queries before and after normalising',
       'thorough': 'up to 5 (7) values'},
      'Complete within the stated bounds; ties between equally near groups are accepted either way.', assumptions=[REAL])

check('C10', 'c10.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, groupings, queries and (k, ke) against an oracle over the listed groups',
      'a refused query, or a query that examines only part of several groups',
      {'quick': 'all datasets of 1..3 rows with up to 4 values over {0,1,3} x 5 distances x 2 thresholds x 2 band ratios x queries of lengths 1..4 x every ke up to 2 beyond the number of candidates x 5 values of k; 5..6 values over {0,2}; structured datasets up to 30 values; 4 large datasets (300 short rows with hundreds of groups, two rows of 40 points, 18 rows of 3..20 points in either order) x 5 x 4 thresholds x 2 ratios x 7 queries x 12 pairs (k, ke) up to beyond all candidates; 32 queries of five points over {0,2}, each after each other one; band ratios 0.7 to 1 with queries of up to 13 points',
       'thorough': 'up to 5 (7) values'},
      'Complete within the stated bounds; groups tied at the boundary are accepted in every order (up to 10 tied groups; larger ties are counted and only the other conditions are checked).', assumptions=[REAL])

check('C11', 'c11.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, queries, bands and k against exact top-k',
      'a query whose k is smaller than the number of subsequences',
      {'quick': 'all datasets of 1..3 rows with up to 4 values over {0,1,3} x 5 distances x 3 ratios x queries x every k from -1 to beyond the number of subsequences; 5..6 values over {0,2}; structured datasets up to 60 values x 3 ratios; 4 large datasets (300 short rows with hundreds of groups, two rows of 40 points, 18 rows of 3..20 points in either order) x 5 x 2 ratios x 7 queries x 16 values of k; 32 queries of five points over {0,2}, each after each other one',
       'thorough': 'up to 5 (7) values'},
      'Complete within the stated bounds.', assumptions=[REAL])

check('C12', 'c12.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, block sizes, queries and call histories against exact block averages',
      'a top-k query with blocks of more than one point, block averages of several points, or a refused history',
      {'quick': 'all datasets of 1..3 rows with up to 4 values over {0,1,3} x every block size x queries x k x 5 distances; block averages of every subsequence of rows to 26 points for every block size; structured datasets to 40 values; 4 large datasets (300 short rows with hundreds of groups, two rows of 40 points, 18 rows of 3..20 points in either order) x 5 x 4 block sizes x 7 queries; all histories of length 1..4 over 10 operations on 2 datasets; 32 queries of five points over {0,2}, each after each other one; normalising after preparing, on all small datasets',
       'thorough': 'up to 5 values, rows to 40 points, histories to length 5'},
      'Complete within the stated bounds.', assumptions=[REAL])

check('C13', 'c13.cpp', 'asan', 'exploration',
      'exhaustive bounded enumeration of datasets, groupings and save/load chains, compared with the groups saved',
      'a chain of more than one save and load, or groups that are more than one',
      {'quick': 'all datasets of 1..3 rows with up to 4 values over {0,1,3} x 5 distances x 3 thresholds x whole-series; 66 structured datasets (raw and normalised) x 5 x 3 x 2; all chains of length 1..3 over {binary, text} for the middle threshold, both single steps for the others; 6 datasets of values with many digits or extreme magnitudes x 6 thresholds x 5 x 2 with all chains of length 2; 4 large datasets (300 short rows with hundreds of groups, two rows of 80 points, 18 rows of 3..20 points in either order) x 5 x 5 groupings with single steps',
       'thorough': 'up to 5 values, all chains for all thresholds of the structured datasets'},
      'Complete within the stated bounds; answers are compared by distance.', assumptions=[REAL])

check('C14', 'c14.cpp', 'asan', 'fault_enumeration',
      'exhaustive enumeration of cut points, byte changes and foreign files, dataset compared before and after',
      'a file that was rejected',
      {'quick': 'every cut length and every byte position (4..10 changed values, for text also removed and doubled) of 4 small files per format x 3 previous states, of a larger file per format, and of a binary file of several internal buffers; every ordered pair of shapes with 2..7 values in up to 3 rows x format x previous groups; 8 kinds of other files',
       'thorough': 'all 8 bit flips everywhere, shapes up to 8 values'},
      'Complete for the enumerated files and damage; damage to several bytes at once is not covered.', assumptions=[REAL])

check('C15', 'c15.cpp', 'asan', 'exploration',
      'exhaustive enumeration of small text files and load options against a reference reader',
      'a file that is refused, or loaded with at least one value',
      {'quick': 'every file of up to 6 characters over {1,x,space,comma,newline} x 54 option sets; up to 9 characters over {2,space,newline} x 32; up to 5 over number syntax; all pairs of 35 fields x 5 separators x 4 option sets x 3 layouts; every shape of up to 4 rows of 0..4 fields x 6 layouts x 96 option sets; large files, files of up to 700 lines with one different line in 5 places, fields and separators of up to 70000 characters; missing files; strings with carriage returns and tabs',
       'thorough': 'up to 7/11/6 characters, up to 5 rows'},
      'Complete within the stated bounds. Fields that merely start with a number are not judged.', assumptions=[REAL])

check('C16', 'c16.cpp', 'asan', 'exploration',
      'exhaustive enumeration of small datasets against the definition of min-max normalisation',
      'a dataset whose values change by normalising',
      {'quick': 'all datasets of up to 4 rows with up to 6 values over 2 three-value alphabets and up to 7 over 3 two-value alphabets; every position of minimum and maximum in 8 shapes; 66 structured and 4 large datasets; 11^3 magnitudes; each plain, named, grouped before, partially loaded or prepared for PAA',
       'thorough': 'up to 7 and 9 values'},
      'Complete within the stated bounds. Datasets without any value and ranges exceeding the largest number are not judged.', assumptions=[REAL])

check('C17', 'c17.cpp', 'asan', 'exploration',
      'exhaustive enumeration of datasets, special values and separators; save and load compared bit for bit',
      'a round trip of a dataset with at least one value',
      {'quick': 'about 340 special values x 8 separators x named or not; all datasets of up to 4 rows with up to 6 values over 2 alphabets, raw and normalised; every shape of up to 4 rows of 0..3 values; 66 structured datasets; large datasets; chains of 2 or 3 saves',
       'thorough': 'up to 8 values, all powers of two'},
      'Complete within the stated bounds. Names containing the separator are outside the property.', assumptions=[REAL])

WRAP = ['-Wl,-z,now,--wrap=memcpy,--wrap=memmove,--wrap=memset']
SCHED = ['the code under test is the library of the working tree compiled with memory-access instrumentation; threads switch only at synchronisation operations, which is enough because every unordered pair of conflicting accesses is reported as a violation',
         'sequentially consistent atomics; orderings of reference counts alone are not explored',
         'every schedule is executed on the real code; a failing schedule is executed a second time before it is reported']

check('C07', ['c07.cpp', 'sched.cpp'], 'sched', 'model_checking',
      'stateless model checking of the real grouping code: partial-order reduced enumeration of all schedules, data race and deadlock detection, result compared with single-threaded grouping',
      'a schedule that was run to its end',
      {'quick': '5 distances x 2..3 threads x 0..3 tasks x first use or used before x whole series x grouped again or another dataset x 3 clocks; each scenario with all schedules (up to equivalence) when they fit into 1000 executions (2 scenarios of 2 threads and 2 tasks: 60000), otherwise all schedules with as many preemptions as fit into 1500 executions; the outcomes list how many scenarios reached which depth',
       'thorough': 'budgets of 100000 and 30000 executions, more datasets with 3 threads'},
      'Complete within the stated bounds.', uninstrumented=['sched.cpp'], libs=WRAP, assumptions=SCHED)

check('C08', ['c08.cpp', 'sched.cpp'], 'sched', 'model_checking',
      'stateless model checking of the real thread pool: depth-first enumeration of all schedules with state caching, deadlock and data race detection',
      'a schedule that was run to its end',
      {'quick': 'pools of 1..3 workers x 0..4 tasks x 4 ways of taking results x throwing tasks, two submitters, nested submissions, spurious wake-ups, submission after shutdown, tasks that wait for each other; 9..257 tasks on 1 worker (to 33 on 2), 4..6 workers; each scenario with all schedules (up to equivalence) when they fit into 5000 executions, otherwise all schedules with as many preemptions (0..3) as fit into 2000 executions (large scenarios: at least all without preemption); the outcomes list how many scenarios reached which depth',
       'thorough': 'budgets of 100000 and 30000 executions, 2 spurious wake-ups'},
      'Complete within the stated bounds.', uninstrumented=['sched.cpp'], libs=WRAP, assumptions=SCHED)

check('C18', 'c18.cpp', 'asan', 'model_checking',
      'breadth-first exploration of a model of the dataset registry; every transition is executed on the real library and compared',
      'a history of at least two operations',
      {'quick': 'all model situations reachable by up to 5 of 37 operations over two names and three files, every operation from each of them; all histories of 6 operations over 10 operations; up to 300 datasets at once; empty, odd and long names',
       'thorough': 'situations reachable by up to 6 operations, histories of 7 operations'},
      'Complete within the stated bounds. Situations that are equal in the model are expanded from one to three histories only.', assumptions=[REAL, 'answers are compared with those of a new instance brought into the same situation in the simplest way'])

check('C19', 'c19.cpp', 'asan', 'exploration',
      'exhaustive enumeration of repeated operation words; allocated bytes and blocks, open files and threads are counted exactly',
      'a word of operations that all succeed when repeated, or a damaged file',
      {'quick': '10 situations x all words of one or two of 76 operations (valid and refused), 4 situations x all words of three of 15 operations, each repeated 3 + 3 times; group files cut at every byte or with one byte changed; data files with every bad field',
       'thorough': 'three-operation words in all 10 situations'},
      'Complete within the stated bounds. Growth that shows only after more than six repetitions is outside the bound.', assumptions=[REAL, 'what the first three repetitions set up may stay'])

check('C20', 'c20.cpp', 'asan', 'fault_enumeration',
      'every save executed with every file operation failing in every way, alone and in pairs, and with the disk full after every number of bytes',
      'a save in which a fault was really injected',
      {'quick': '7 datasets (one value to 40 series, up to many buffers) x 4 kinds of save; full after every byte for files up to 3000 bytes, otherwise around every page and the first and last 300 bytes; 7 kinds of faults at every operation, alone, with all later ones and (up to 14 operations) every pair; 8 impossible targets',
       'thorough': 'every byte for files up to 40000 bytes, pairs up to 40 operations'},
      'Complete within the stated bounds.', assumptions=[REAL, 'faults: a file size limit of the operating system, and failing open, write, writev and close calls', 'saving the same thing twice gives the same bytes'])

check('C21', 'c21.cpp', 'asan', 'exploration',
      'every assignment of clock readings to the clock reads of a grouping; groups compared with those under a standing clock, printed progress parsed',
      'a grouping that printed progress',
      {'quick': '416 dataset sizes x 9 changes of the clock; 16 datasets x all sequences of 5 of the 9 changes (0, 1, 9, 10, 11, 3600, -1, -3600, -1000000 s), other distances, whole series and 2 or 3 threads with 3 changes of 3 or 4 kinds',
       'thorough': '1104 sizes, sequences of 6 changes'},
      'Complete within the stated bounds. With several threads only the groups are judged; which thread reads which value is left to the system there (C07 explores the schedules).', assumptions=[REAL, 'the clock is read through std::chrono'])

check('C22', 'c22.cpp', 'asan', 'model_checking',
      'the real main function of the shell runs with an input function that duplicates the process for every possible next line; a directly driven second library instance is the model',
      'a line that is carried out rather than refused',
      {'quick': '4 situations x all sessions of 2 lines from 157 lines (valid and invalid for every command); 2 situations x all sessions of 3 lines from 27; all sessions of 5 lines from 5 lines; each followed by 9 further lines that show the resulting state; all ends of sessions of up to 4 lines, ends of input and answers; sessions of 2 lines from 32 on larger data; a session with 12 datasets, lines of up to 2000 characters and all help texts',
       'thorough': '3 lines from 4 situations, 4 lines from 27, 7 lines from 5, ends of up to 5 lines'},
      'Complete within the stated bounds. Numbers followed by other characters are accepted by the shell and not judged.', cli=True,
      assumptions=[REAL, 'the input library (readline) is replaced, the number of processors is 2', 'printed numbers may be rounded to six digits'])

check('C23', 'c23.cpp', 'asan', 'exploration',
      'exhaustive enumeration of operation sequences on three or two sequence objects, compared with a model of windows of buffers',
      'a sequence of operations that changes something',
      {'quick': '5 triples of owned or borrowed sequences x all sequences of 3 of 51 operations (assign, move, copy, add, write, envelope, compare), 3 of them x all sequences of 4 of 36; 5 pairs x all sequences of 5 of 18; equality of all pairs of lengths 0..3 x 9 differences per value x 9 kinds of storage; all elements in and out of range',
       'thorough': 'all triples with 4, all pairs with 6 operations'},
      'Complete within the stated bounds. Envelopes after single elements were written from outside, sums of overlapping windows, and sequences that were moved away are not judged.', assumptions=[REAL])

check('C24', 'c24.cpp', 'asan', 'model_checking',
      'every history of queries and settings is executed, then a battery of queries is compared with the answers of a new process brought into the same situation',
      'a history of at least two operations',
      {'quick': '5 situations x all histories of 2 of 46 operations, one situation x all histories of 3 of 36, one x all histories of 4 of 12; then 50 queries, all data and the group listing',
       'thorough': '5 situations x histories of 3, one x histories of 5 of 12'},
      'Complete within the stated bounds.', assumptions=[REAL, 'answers are compared bit for bit, including the choice among equally good sequences'])

check('C25', 'c25.cpp', 'asan', 'exploration',
      'the product of boundary values of every argument of every public call on small datasets; acceptance predicted from the data, answers checked to lie inside the data',
      'a call that is carried out',
      {'quick': '27 situations (equal, unequal, empty and single-value rows; plain, grouped, grouped by whole series, prepared for PAA, named); 5 names, 12 to 17 integers per index, position, k, ke, block size and thread count including the extremes of int, 17 distance names; all four positions of two sequences at once; all pairs of 24 band ratios including infinite, negative and undefined ones'},
      'Complete within the stated bounds.', assumptions=[REAL, 'undocumented corner cases (for example a query of length zero) may be refused or answered'])

check('C26', 'c26.cpp', 'asan', 'model_checking',
      'the compiled Python module runs in an embedded interpreter; every history of calls and every argument combination is executed and compared with a directly driven library instance',
      'a call that is carried out rather than refused',
      {'quick': 'all histories of up to 3 of 27 calls and of 4 of 11 calls, each followed by 15 queries about the result; in 4 situations every function with the product of 3 to 11 values per argument (wrong types and numbers outside int included), all by position, by name, and with optional ones left out; 836 band ratios (all fractions up to thirtieths and their neighbours) at lengths 1 to 31; larger data with answers of more than a hundred results',
       'thorough': 'histories of 5 of 11 calls'},
      'Complete within the stated bounds.', bindings=True, cxxflags=['-I/usr/include/python3.12'], libs=['-lboost_python312', '-lpython3.12'],
      assumptions=[REAL, 'the module is compiled for the installed Python 3 and is part of the program instead of a shared library'])

check('C27', 'c27.cpp', 'asan', 'exploration',
      'the search is run on every short stream and query, and its printed result is compared with an exhaustive search',
      'a search with at least one window that varies, so that there is a nearest one',
      {'quick': 'all queries of 2 to 4 and all streams of up to 6 values out of three, with all bands (all but two per stream of 6); 32 queries of 5 to 8 values in all streams of two values up to 11 long and of three values up to 8 long; queries of 9 to 150 values; streams of 99999 to 200000 values with the nearest window at every place around the borders of what is read at once',
       'thorough': 'streams up to 7, 13 and 9 values'},
      'Complete within the stated bounds.', asan='max_malloc_fill_size=4096:quarantine_size_mb=1', assumptions=[REAL, 'distances are compared to the six digits that are printed'])
