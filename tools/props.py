import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
LIB=["poppy/src/bloom.rs","poppy/src/bloom/v1.rs","poppy/src/bloom/v2.rs"]
CLI=["poppy/src/bin/poppy.rs"]
p("C01","No accepted entry is ever forgotten (no false negatives)",
  "Once the library has accepted the insertion of an entry into a filter, every later membership query for that entry answers yes on that filter and on every filter obtained from it by copying, saving and reloading, or merging by union, until the filter is explicitly cleared. This holds for both formats, every optimisation level, capacity and false-positive probability, and for every way the API accepts an entry (bytes, strings, integers, options, prepared hashes).",
  ["histories","configurations","inputs","fault_sequences"],
  "Every history of create / insert / query / clone / union / save / failed save / load / restart steps, every filter configuration, every entry, with saves and loads running over fragmented, interrupted or failing streams.",
  "Tests insert two to a thousand literals in one or two hand-picked configurations and query them at once; they never mix restarts, merges, failed saves and optimisation levels, nor degenerate sizes.",
  LIB+["poppy/src/hash.rs","poppy/src/bitset/array.rs","poppy/src/bitset/vec.rs"],
  [("insertion and query walk the same bit positions","v1.rs insert_bytes/contains_bytes; v2.rs insert_iter/contains_iter"),("bucket choice and lookup-cache bit are the same on both paths","v2.rs insert_iter/contains_iter"),("union is a bitwise or of all parts","v1.rs/v2.rs union_merge")],
  ["insert* / contains* results through the public API"])
p("C02","Save then reload reproduces the filter under any I/O fragmentation",
  "The bytes a filter writes do not depend on how the destination fragments or interrupts the writes, and loading them back, however the source fragments or interrupts the reads and wherever in the stream the filter starts, yields a filter with the same version, capacity, false-positive probability, optimisation level, element count, attached data and answers. A filter that is saved and reloaded at arbitrary points of its life behaves from then on exactly like one that never was.",
  ["fault_sequences","histories","configurations"],
  "Every configuration and content, every split of the stream into short reads and writes, every pattern of interrupted calls, every start offset, every set of restart points in an insertion history.",
  "Tests round-trip two filters through an in-memory cursor, which never returns a short count or an interrupted error, and stop after the reload.",
  LIB+["poppy/src/utils.rs"],
  [("exact-length reads and full writes","utils.rs read_le_u64/read_le_f64; read_exact/write_all in v1.rs, v2.rs"),("header and payload written and read in the same order","v1.rs/v2.rs write, from_reader_with_flags")],
  ["bytes given to the writer","fields and answers of the loaded filter"])
p("C03","A save whose bytes did not all reach the destination is never a success",
  "If saving a filter reports success, the destination has accepted every byte of it; any write failure at any byte, including the very last ones, is reported as an error by the library and as a non-zero exit status by the command line. A failed save leaves the in-memory filter unharmed, so that a later save to a healthy destination produces the complete file.",
  ["fault_sequences","inputs","configurations"],
  "Every byte offset at which the device can start failing or fill up, every kind of write failure (full device, I/O error, zero-length write, transient error), every filter size relative to internal buffers.",
  "Tests write to an in-memory vector that cannot fail; nothing in the suite exercises an error on any write, let alone on the last buffered block.",
  LIB+CLI,
  [("errors of buffered writes are propagated, buffer flushed before success","v1.rs/v2.rs write"),("command propagates the write error","poppy.rs Create/Insert")],
  ["result of write() against bytes accepted by the device","exit status of create / insert against file content"])
p("C04","Loading truncated, failing or malformed input is an error, never a crash",
  "Loading a filter from a stream that ends early, fails while being read, or has an unsupported version, optimisation level or false-positive probability returns an error and no filter. Whatever bytes the stream holds, loading neither panics nor aborts nor loops, needs memory in proportion to the bytes actually present rather than to sizes the stream merely claims, and any filter it does return can be queried without panicking.",
  ["fault_sequences","inputs","crash_points"],
  "Every truncation point, every read or seek error position, every damaged header field, every short-read pattern; full and metadata-only loading, both formats.",
  "Tests only load intact streams; no test truncates, corrupts or fails a stream.",
  LIB+["poppy/src/utils.rs","poppy/src/bitset/vec.rs"],
  [("exact-length reads turn early end into an error","utils.rs, v1.rs, v2.rs from_reader_with_flags"),("version, optimisation level and fpp validation","bloom.rs read_flags/from_reader, v2.rs from_reader_with_flags")],
  ["result of from_reader / partial_from_reader","largest allocation requested during the load","number of reads issued"])
p("C05","Capacity is enforced and a refused insertion changes nothing",
  "As long as the element count is below the capacity an insertion is accepted, and once it has been reached every insertion of an entry that is not already present is refused with the capacity error, while entries already present keep being accepted. A refused insertion leaves the filter exactly as it was, the count grows by one for each accepted new entry and only then, and a filter reports itself full exactly when its count has reached or passed its capacity; all of this also after reloads and merges, and for insertions made through the command line. An entry already present is one whose insertion would leave the element count as it is.",
  ["histories","configurations","inputs"],
  "Every configuration (capacity zero and one included) and every history of inserts, duplicate inserts, merges that push the count past the capacity, saves, reloads and clears.",
  "Tests fill one small filter of each format to the brim and try one more insertion; no test refuses, merges and reloads in sequence, checks the refused filter's content, or uses an optimised layout.",
  LIB+CLI,
  [("count against capacity test before any bit is set","v1.rs insert_bytes; v2.rs insert_iter"),("full test","v1.rs/v2.rs is_full")],
  ["insert results, count, is_full, and serialised bytes before and after"],
  state=[dict(name="count",meaning="elements accepted as new, or the estimate after a merge",where="v1.rs, v2.rs")])
p("C06","Merging filters is exact, order-independent and refuses incompatible ones",
  "The union of filters with equal parameters answers yes for exactly the queries that a single filter holding all their entries would, whatever the order in which the parts were built, saved, reloaded and merged; an intersection answers yes only for what both operands answer yes to and for every entry inserted in both. After a merge the element count estimates the number of distinct entries, and merging or comparing filters of different version, capacity, false-positive probability or optimisation level is refused and leaves both unchanged.",
  ["histories","schedules","configurations"],
  "Every way to split entries over parts, every merge order and tree, parts reloaded from storage in between, every pair of configurations.",
  "Tests merge two filters of two or five literals each in one configuration without lookup cache and compare only the inserted words.",
  LIB+["poppy/src/bitset/array.rs","poppy/src/bitset/vec.rs"],
  [("bitwise or / and over every bucket and the lookup cache","v2.rs union_merge/intersection_merge; v1.rs union_merge"),("parameter comparison","has_same_params in bloom.rs, v1.rs, v2.rs"),("count recomputed from set bits","update_count in v1.rs, v2.rs")],
  ["answers of the merged filter to member and non-member probes","count_estimate, count_common_entries"])
p("C07","Command-line insertion is the same for every job count and schedule",
  "A successful insert command leaves a filter that answers yes for exactly the queries that the previous filter with every line of standard input (when selected) and of every input file inserted one after the other would, whatever the number of jobs, files, processors and thread interleavings. Parameters and attached data are unchanged, and the recorded element count estimates the number of distinct entries.",
  ["schedules","inputs","configurations","fault_sequences"],
  "Every interleaving of the worker threads, every number of jobs including zero and more than the files, every distribution of lines over files and standard input, every short or interrupted read.",
  "The command-line program has no tests at all.",
  CLI+LIB,
  [("files split in batches, one private copy of the filter per batch","poppy.rs parallel_insert"),("reduction by union of every copy","poppy.rs parallel_insert"),("line reading","poppy.rs process_file, Insert")],
  ["filter file after exit 0"],hook="none: the unmodified program runs under an interposed system interface")
p("C08","The check command prints exactly the matching lines, each once and whole",
  "A successful check command prints each line of standard input (when selected) and of every input file that the filter contains exactly once per occurrence, each as one intact output line, and nothing else; in verify mode it prints exactly the lines not contained, marked as such, and in silent mode no matching line. This holds for every number of jobs including automatic, every thread schedule and every fragmentation of input and output, and if an input cannot be read or a result cannot be printed the exit status is not zero.",
  ["schedules","inputs","configurations","fault_sequences"],
  "Every interleaving of the checking threads at any instruction boundary of the program, every job count, every split of lines over files, every short or interrupted read and write, every input or output failure.",
  "The command-line program has no tests at all; interleaving of output lines depends on the schedule.",
  CLI,
  [("one thread per batch of files, shared filter under a read lock","poppy.rs Check"),("each line printed by one locked call","poppy.rs Check")],
  ["standard output as a multiset of lines, exit status"],hook="none")
p("C09","A command that fails reports it and leaves the existing filter untouched",
  "When a create or insert command meets a missing, unreadable or failing input, an input line it cannot decode, a line that exceeds the capacity, invalid parameters, or cannot start a worker or obtain memory, it ends with a non-zero exit status and a filter file that existed before is byte for byte unchanged. Creating over an existing file that is not a valid filter is always refused and leaves that file unchanged.",
  ["fault_sequences","schedules","inputs"],
  "Every input fault (open error, read error at any offset, undecodable line at any position) in any file or standard input, any job, any schedule; worker start and allocation failures; any existing content at the destination.",
  "The command-line program has no tests at all, and input errors inside a worker need injected faults.",
  CLI,
  [("result is saved only after every worker has succeeded","poppy.rs Create/Insert, parallel_insert"),("existing destination validated first","poppy.rs Create")],
  ["exit status and destination bytes"],hook="none")
p("C10","Acknowledged insertions survive later commands, even killed ones",
  "After any sequence of create, insert, check and show commands on a filter file, every entry that a command which exited successfully added is still reported present by the next check. A create or insert command that is killed, or fails while saving, leaves either the complete previous filter or the complete new one.",
  ["crash_points","histories","schedules","fault_sequences"],
  "Every system-call boundary and every byte of a write at which the process can be killed or the disk fill up, in every command of every sequence, under every thread schedule.",
  "The command-line program has no tests, and no test kills a process or fills a disk.",
  CLI,
  [("filter rewritten only at the very end of the command","poppy.rs Create/Insert")],
  ["filter file after each kill, answers of the next check"],hook="none")
p("C11","Every command terminates",
  "Every create, insert, check, bench and show command ends after a number of steps bounded in terms of the size of its inputs, with success or with an error, for every number of jobs and files, every schedule, and every fault including inputs that fail persistently, such as a directory given as data file. No command waits for standard input it was not asked to read.",
  ["schedules","fault_sequences","inputs"],
  "Every schedule, job count and fault plan, persistent faults included; termination is counted in simulated steps.",
  "The command-line program has no tests; a test cannot tell a slow run from an endless one.",
  CLI+["poppy/src/utils.rs"],
  [("errors end the line loop","poppy.rs process_file, count_lines_parallel, Check"),("every worker is joined","poppy.rs")],
  ["simulated step count, deadlock detection"],hook="none")
p("C12","A filter created from a dataset holds all of it, sized to it",
  "A successful create command given a dataset produces a filter of the requested version, false-positive probability and optimisation level whose capacity is the total number of lines of the dataset, that answers yes for every line and exactly like a filter filled with those lines one after the other, for every number of jobs, files and schedule. Without a dataset it produces an empty filter of the requested capacity.",
  ["schedules","inputs","configurations","fault_sequences"],
  "Every interleaving of the counting and inserting threads, every job count, every split into files (empty, without final newline, with duplicate and very long lines), every version, level and probability.",
  "The command-line program has no tests at all.",
  CLI+LIB,
  [("parallel line count gives the capacity","poppy.rs count_lines_parallel"),("parallel insertion and union","poppy.rs parallel_insert")],
  ["created file"],hook="none")
p("C13","Filter files stay compatible with other implementations and versions",
  "A version 1 file written here is read with the same answers, count and data by any implementation of the DCSO format, and a DCSO file is read here likewise; a version 2 file is exchanged in the same way with any implementation of the published poppy layout, older releases included. Filters created by either side with the same parameters can be merged and extended by the other in any order.",
  ["histories","configurations","inputs","fault_sequences"],
  "Every history in which independent implementations take turns in creating, extending, saving and loading the same file over fragmented streams, every configuration and entry.",
  "Tests read one DCSO file with two words and check one fingerprint and three hash values; version 2 has no reference file, and no test writes a file for another implementation.",
  LIB+["poppy/src/hash.rs","poppy/src/hash/fnv.rs","poppy/src/hash/wyhash.rs","poppy/src/bloom/utils.rs"],
  [("DCSO fingerprint","v1.rs Fingerprint, fnv.rs"),("double hashing over buckets and lookup cache","v2.rs IndexIterator, hash.rs"),("field layout","v1.rs/v2.rs write, from_reader_with_flags"),("sizing formulas","bloom/utils.rs, v2.rs make")],
  ["file bytes exchanged with an independent reference implementation"])
p("C14","Metadata read without the content equals the metadata of the full filter",
  "Loading only the metadata of a filter, or showing it, reports the same version, capacity, false-positive probability, element count, attached data and filter size as loading it completely, from any start offset and under any fragmentation of reads and seeks; a read or seek failure is an error. The reported filter size is the number of bytes of bit storage in the file.",
  ["configurations","fault_sequences","histories"],
  "Every configuration, content, attached data length and start offset, every short or interrupted read, every read or seek error position.",
  "Tests partially load one small filter per format from an in-memory cursor and compare a few fields, the size in one format only and only against itself.",
  LIB+CLI,
  [("content skipped by a relative seek of the stored size","v1.rs/v2.rs from_reader_with_flags partial branch"),("size derived from stored sizes","size_in_bytes in v1.rs, v2.rs")],
  ["partial_from_reader getters against from_reader getters and stream length","output of show"])
p("C15","A filter shared between threads answers as if used sequentially",
  "Queries made concurrently on one shared filter each return what they would return alone, and when insertions, merges and queries are serialised by a lock, every query made after an insertion was accepted answers yes and the final filter equals one filled sequentially, under every thread schedule. Operations on different filters in different threads never influence one another.",
  ["schedules","histories"],
  "Every interleaving, at every basic block and memory access of the library, of threads querying, inserting, merging, saving and loading.",
  "All library tests are single threaded.",
  LIB+["poppy/src/hash.rs"],
  [("no interior mutability, no global state","whole library"),("per-query iterator state","v1.rs Fingerprint copied per call, v2.rs IndexIterator")],
  ["per-thread results and final bytes under a controlled scheduler"])
p("C16","Python bindings answer like the library and keep its storage guarantees",
  "From Python, creating, inserting into, querying, comparing and merging filters gives what the library gives, and raises where the library reports an error, never killing the interpreter. A save or dump that returns has stored the complete filter and any failure raises an exception; a load or loads either returns a filter with the same answers, count, capacity, probability, version and data or raises. Files and bytes are interchangeable between the bindings, the command line and the library in both directions.",
  ["fault_sequences","histories","configurations","inputs"],
  "Every write, read or open fault position, every truncation, every history of inserts, merges, saves and loads alternating between the bindings and the library.",
  "The bindings have no tests.",
  ["python/src/lib.rs"]+LIB,
  [("library errors become exceptions","python/src/lib.rs From<Error> for PyErr"),("every method hands its arguments to the library unchanged","python/src/lib.rs"),("save writes the library format","python/src/lib.rs save, dumps, load, loads")],
  ["results and exceptions in a real interpreter"],hook="none")
p("C17","The false-positive target holds after any history",
  "A default-format filter that holds no more entries than its capacity answers yes for entries never inserted at a rate not noticeably above the requested probability, for every optimisation level and however it came to hold them: inserted directly, merged from parts, reloaded, or refilled after having been cleared. Entries of up to eight bytes are stored as they are, so the rate is promised for longer ones, such as names and digests.",
  ["histories","configurations"],
  "Every optimisation level, probability and capacity, every history of filling, clearing, refilling, merging and reloading; the rate is measured over many probes against a statistical bound.",
  "The only rate test is skipped in the suite and covers one configuration, filled once, with no clear, merge or reload.",
  LIB[0:1]+["poppy/src/bloom/v2.rs","poppy/src/bloom/utils.rs","poppy/src/hash.rs"],
  [("buckets, hash count and lookup cache sized from capacity and probability","v2.rs make, bloom/utils.rs"),("clearing resets every part","v2.rs clear")],
  ["rate of positive answers to fresh probes"])
p("C18","Clock behaviour never changes what a command reports or decides",
  "Whatever the clocks do (stand still, jump ahead, run erratically), timed commands give the same verdict: check prints the same lines, and bench succeeds exactly when the filter contains the dataset (up to the given size limit) and its measured false-positive rate is within the tolerance, reporting the same rates, and otherwise fails; no clock behaviour makes them panic.",
  ["schedules","fault_sequences","inputs"],
  "Every sequence of clock readings the operating system may return (frozen, coarse, huge steps, wall clock going backwards), every dataset and tolerance, runs count of one or more.",
  "No test runs a timed command, and tests cannot control the clock.",
  ["poppy/src/utils.rs"]+CLI,
  [("durations averaged after removal of outliers","utils.rs benchmark"),("verdict computed from counted positives only","poppy.rs Bench")],
  ["exit status, printed rates and lines under a simulated clock"],hook="none")
p("C19","A cleared filter is indistinguishable from a new one",
  "After clearing, a filter reports no elements and from then on answers and behaves exactly like a newly created filter with the same parameters and the same attached data through any further history of insertions, merges, saves and reloads, including the bytes it is saved as.",
  ["histories","configurations"],
  "Every configuration and every history before and after the clearing, including reloads on both sides of it.",
  "One test clears a two-word filter of the legacy format and queries the two words; the default format and the lookup cache are never cleared.",
  LIB,
  [("every bucket, the lookup cache and the count are reset","clear in v1.rs, v2.rs")],
  ["answers, counters and bytes against a fresh twin"])
p("C20","Bit-set primitives behave like a set of bit positions",
  "Setting, unsetting, reading, counting, clearing, uniting and intersecting bit sets behave as the same operations on a set of positions.",
  ["inputs","histories"],"Every sequence of operations on every position.",
  "Tests set and read every bit of one bucket once.",
  ["poppy/src/bitset/array.rs","poppy/src/bitset/vec.rs"],[("mask arithmetic","set_value_nth_bit, get_nth_bit")],["return values"])
p("C21","Human-readable sizes are faithful",
  "A displayed size is the byte count divided by the unit shown, and sizes compare like their byte counts.",
  ["inputs"],"Every byte count.","No test covers it.",
  ["poppy/src/utils.rs"],[("unit selection","ByteSize::from_bytes")],["Display output"])
p("C22","Filters are no larger than the requested accuracy needs",
  "The memory and file size of a filter follow from capacity and false-positive probability by the Bloom filter formula, rounded up to the layout's granularity.",
  ["configurations"],"Every capacity and probability.","No test checks sizes against the formula.",
  ["poppy/src/bloom/utils.rs","poppy/src/bloom/v1.rs","poppy/src/bloom/v2.rs"],[("sizing formulas","bloom/utils.rs, make, with_capacity")],["size_in_bytes"])
p("C23","Comparing two filters counts what they have in common",
  "The number of common entries reported for two filters with equal parameters is the same whichever of the two is asked and asking changes neither. It is not noticeably below the number of entries inserted in both, nor noticeably above that number plus what chance overlap of unrelated entries accounts for, however the filters were built, saved, reloaded, copied and merged.",
  ["histories","configurations"],
  "Every pair of filters with equal parameters and every history of insertions, unions, copies, saves over fragmented streams and reloads that led to them, of both formats and every optimisation level.",
  "Tests compare two pairs of filters in one configuration each, in one direction, straight after filling them.",
  LIB+["poppy/src/bitset/array.rs"],
  [("bits set in both, turned into a number of entries","count_common_entries in v1.rs, v2.rs"),("number of common bits","count_ones_in_common in v1.rs, array.rs")],
  ["count_common_entries in both directions"])
p("C24","Commands write nothing but the filter they were asked to write",
  "Check, show and bench leave every file exactly as it was, and create and insert never change any file but the filter file they were given, whether they succeed, fail or are killed and whatever faults they meet. A command that succeeds leaves no other file behind.",
  ["histories","fault_sequences","crash_points","schedules"],
  "Every command on every set of input files, every job count and schedule, every failing or interrupted call, every kill point.",
  "No test runs the program.",
  CLI,
  [("only the filter is opened for writing, and only by create and insert","poppy.rs File::create in Create/Insert")],
  ["directory listing and bytes of every file before and after each command"],hook="none")
p("C25","What a filter reports about its bits agrees with what it stores",
  "At every point of any history the numbers of set and unset bits, the size and the list of bits that a filter reports are those of the bit storage it would save (the lookup cache counts in the size only), and its estimated false-positive probability is a probability. This holds after insertions, refused ones included, and after merges, intersections, clearing, copying and reloading.",
  ["histories","configurations","fault_sequences"],
  "Every configuration and every history of insertions, unions, intersections, copies, clearings, saves over fragmented or failing streams, reloads and restarts.",
  "Tests compare the number of set bits of a few filters with the capacity they were filled to, never with what is stored, and never after a merge or reload.",
  LIB+["poppy/src/bitset/array.rs"],
  [("bits counted over the whole storage","count_ones, count_zeros in v1.rs, v2.rs"),("bit list","v1.rs bits, get_nth_bit"),("size from stored sizes","size_in_bytes in v1.rs, v2.rs")],
  ["count_ones, count_zeros, bits, n_bits, size_in_bytes, estimated_p against the bytes written"])
p("C26","Jobs and memory stay within what was asked for",
  "A command run with N jobs (as many as there are processors when automatic) never has noticeably more than N threads at work at a time, whatever the number of input files and the schedule. Creating and inserting need memory for about one copy of the filter per job, checking for about one copy, and showing for none, beside what is being read.",
  ["schedules","inputs","configurations"],
  "Every number of jobs, processors and input files, every interleaving of the threads, every fragmentation of the inputs, filters much larger than the inputs.",
  "The command-line program has no tests at all, and tests measure neither threads nor memory.",
  CLI+LIB,
  [("files split in one batch per job, one thread each","poppy.rs count_lines_parallel, parallel_insert, Check"),("one copy of the filter per batch when writing, one shared one when checking","poppy.rs parallel_insert, Check"),("metadata read without the content","poppy.rs Show")],
  ["largest number of live threads and of allocated bytes of each simulated process"],hook="none")
p("C27","Reading a filter while it is being updated",
  "A check that runs while an insert rewrites the same filter file either fails with an error or reports every entry that was in the filter before. It never reports an entry that is not in the filter even afterwards.",
  ["schedules","histories","configurations"],
  "Every point the insert can have reached at each opening and reading of the file by the check, filters of many blocks of both versions and all optimisation levels, fragmented reads.",
  "The command-line program has no tests at all; two commands at once are timing dependent.",
  CLI+LIB,
  [("file emptied and written from its start","poppy.rs Insert, write in v1.rs, v2.rs"),("a file that ends early is refused","from_reader in bloom.rs, v1.rs, v2.rs"),("loaded before anything is printed","poppy.rs Check")],
  ["exit status and output of a check whose file changes under it through stages a real insert went through"],hook="none")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
