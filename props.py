# What each check runs, its oracle, and what is real and what is simulated.
REALLIB = "the library under test, compiled unchanged from /repo's working tree (with asserts, -DHAVE_PTHREADS, compiler instrumentation)"
STUB_THREADS = "pthread mutexes, conditions, thread creation/joining/identifiers, nanosleep and clocks: simulated POSIX semantics in sim/core.cpp"
STUB_HEAP = "operator new/delete and malloc: simulated heap with exact bounds, quarantine or immediate reuse"
STUB_SCHED = "the scheduler: seeded, one simulated thread at a time, preemption at every instrumented memory access, atomic and synchronising call"
COMMON = ["sequentially consistent execution plus happens-before race detection; no weaker hardware memory order is simulated",
          "the code is instrumented at -O1, not the shipped -O2 object code",
          "seeded search: what was not generated was not explored"]

PROPS = {}


def prop(pid, binary, rule, oracle, extra_stub=(), assumptions=(), **kw):
    d = dict(bin=binary, rule=rule, oracle=oracle, real=[REALLIB], stub=[STUB_SCHED, STUB_THREADS, STUB_HEAP] + list(extra_stub),
             assumptions=COMMON + list(assumptions))
    d.update(kw)
    PROPS[pid] = d


prop("T01", "sync", "Workload: 2-6 threads entering, probing, nesting, constructing and destroying latches around unprotected counters, half of the cases with the shared latches first constructed by racing threads.",
     "ghost owner per latch (mutual exclusion at every point), exact counter sums and race detection on the protected data (hand-over visibility), probe() must not wait and must succeed when no other call overlapped, deadlock and step-budget detection (progress)",
     assumptions=["holding() may wait while another thread holds the latch (it is implemented so)", "operating-system mutexes are correct"])
prop("T02", "sync", "Workload: ticket takers and givers (signal inside or outside the latch, broadcast for several) and a gate opened by broadcast, with spurious wake-ups, so that every taker has a ticket.",
     "ghost owner while inside and across every wait, holding() after wait, exact data sums; every run must end with every waiter served (deadlock and step budget detect lost wake-ups)",
     assumptions=["waiters of one condition wait for interchangeable tickets, so one signal per ticket is enough"])
prop("T03", "sync", "Workload: timed waits of 0 ms to 30 days, unsignalled and racing with signals, repeated with the same variable, under spurious wake-ups, wall-clock steps of up to 400 days and jumps of the clock to the next timer.",
     "simulated clock: not early, not late (60 ms slack, when no timer jump was injected), delay argument within [time left, asked], repeated waits sum to the requested total, no untimed taker left without its ticket",
     assumptions=["the monotonic clock is not stepped; wall-clock steps do not count as waiting time"])
prop("T04", "threads", "Workload: main and up to 9 Threads starting, joining, destroying each other (join targets ordered, so no cycle), late storage of identifiers by pthread_create, identifier reuse, interrupted sleeps.",
     "run() exactly once, after the start, ended when join returns, data written by run() visible and race-free after join, no access to a destroyed Thread (heap check), every join returns",
     assumptions=["a Thread is joined by one thread at a time and destroyed only after join or joinAny has reported it"])
prop("T05", "threads", "Workload: as T04 with one or two threads calling joinAny while others are started, joined and destroyed.",
     "ghost record of started/ended/reported threads: joinAny returns only ended, unreported, live threads, null only when nothing but overlapping calls can account for the rest; every call returns (deadlock and step budget)",
     assumptions=["two threads that only wait for each other in joinAny are not generated: neither ends"])
prop("T06", "threads", "Workload: as T04/T05 with identifier reuse up to 100%, unregistered threads, current()/main()/id() checks inside every run() and one more thread after everything was destroyed.",
     "current() is the executing Thread (null in unregistered threads), id()==currentId(), main() constant, all live threads remain reportable, heap back to its initial state at the end",
     assumptions=[])
prop("T07", "threads", "Workload: as T05 with 15-80% of thread creations refused by the operating system.",
     "a refused thread never runs and is never reported, every other thread is reported exactly once, joinAny returns null at the end, refused Threads can be destroyed",
     assumptions=[])
prop("T08", "threads", "Workload: 1-6 threads calling Thread::yield(0..3600000 ms) with up to 95% of the sleeps interrupted by a signal at a random moment and wall-clock steps.",
     "simulated clock: not early, at most 60 ms late when no timer jump was injected, returns", assumptions=[])
prop("T09", "threads", "Workload: as T05.",
     "the simulated operating system rejects joining or detaching an identifier twice or after reclamation; at the end no created thread is left unreclaimed",
     assumptions=["threads are waited for before the end; a Thread destroyed without being waited for is outside the property"])

VW = "Workload: 1-4 threads, each with its own handles (7 strings, 5 integer arrays, 4 string arrays, 3 maps, 5 variants, 4 errors) that share content from the start, hand values to each other through locked boxes and apply the public operations of the classes"
VO = "every handle has a private reference model (a sequence of code points, a list, a map); after each operation the changed handle, and after a share of them every handle, must read as its model says"
for _id, _rule, _oracle in (
    ("V01", VW + "; mostly strings.", VO + " (text, length)."),
    ("V02", VW + "; mostly arrays of integers and of strings.", VO + " (length, elements)."),
    ("V03", VW + "; mostly maps and variants, nested to depth 3.", VO + " (entries, types, values, coerced values)."),
    ("V04", VW + "; all kinds.", "heap with exact block bounds and poisoning: every instrumented access, and every byte range handed out by the library, must lie in a live block; no double or mismatched free; after all handles are dropped the number of live blocks is what it was before"),
    ("V05", VW + "; all kinds, results read as a program would.", "happens-before race detection (vector clocks) over every instrumented access to the heap and to global data: two conflicting accesses, at least one not atomic, must be ordered"),
    ("V06", VW + "; three quarters of the runs use one thread and up to 140 operations on strings built by different histories.", VO + "; results of indexing, comparison, search, conversion, case change, transform, joining and formatting equal those computed from the model's code points"),
    ("V07", VW + "; three quarters of the runs use one thread and up to 140 operations on arrays.", VO + "; results of indexing, comparison, search and functional methods equal those computed from the model's list"),
    ("V08", VW + "; allocation failures are injected while a library operation runs (one, a percentage, a burst, or all from some point on).", VO + ", or, if an allocation failed during the operation, its old value; std::bad_alloc is thrown exactly if an allocation failed; after the end every handle can be changed again and dropped, and nothing is left allocated"),
    ("V10", VW + "; with many strings and arrays over storage owned by the caller, some of it released right after a copy was made.", VO + "; the borrowed bytes never change, the caller's body is left with the caller's reference only, and the shared empty string reads as empty after every step"),
    ("V12", VW + "; mostly variants nested to depth 3, rendered as JSON in all indent styles.", "the JSON text is read back by a parser of its own and must give the value of the reference model; its layout is that of the indent style"),
    ("E01", VW + "; errors only.", "every Error has a reference model (number, text, parameters) and must read as it says, and compare accordingly"),
):
    prop(_id, "values", _rule, _oracle, assumptions=["arguments are kept within the documented domain (head/tail/drop not longer than the value, search positions inside it)", "raw-binary strings are not generated: the code marks them as unfinished"])

prop("V09", "utf8", "Workload: 1-3 threads building, slicing, joining, changing and reading strings made of valid, overlong, truncated and stray UTF-8 bytes, some corrupted or cut further when the string is made, from exact-size buffers, given-length text that goes on, and borrowed text cut inside a character.",
     "an independent decoder of the byte string: bytes, length, every character by index in four orders, by iteration, by search from both ends, and substrings put together again, must agree with it; heap with exact bounds",
     assumptions=["borrowed text that is not NUL-terminated at its given length continues in NUL-terminated memory", "raw-binary strings are not generated: the code marks them as unfinished"])
prop("V11", "utf8", "Workload: 1-3 threads moving, adding to, copying and reading the five kinds of text pointer over shared texts in exactly sized memory, well-formed and damaged (stray, cut and corrupted sequences), with steps and jumps that often reach past the ends.",
     "the position the same moves lead to over the text's characters, stopped at the ends the kind guards; in damaged text, where going back need not undo going on, bounds and progress only; heap with exact bounds; happens-before race detection",
     assumptions=["a pointer is only moved out on a side its kind does not guard as far as the text goes"])
prop("C01", "utf8", "Workload: 1-4 threads calling the classification, digit and case functions with characters around the range boundaries of the tables, in runs of neighbours and jumps.",
     "every result equals the one the same call gives alone, from a fixed state, before the threads start; happens-before race detection over all global data",
     assumptions=["whether the values are the right ones is C02, not checked here"])
prop("C02", "utf8", "Workload: 1-4 threads looking up runs of characters over all of Unicode (and past it) in the case, digit and classification functions, in any order, and writing and reading UTF-16 in exactly sized memory, either byte order.",
     "Unicode's own case mappings and digit values for the characters that the library's tables (Unicode 3.0) cover, generated from python's unicodedata; everything else maps to itself; an independent UTF-16 encoder",
     assumptions=["characters that came to Unicode after version 3.0, or after the tables were made, map to themselves and are not letters or digits", "UTF-16 text is well-formed (a lone surrogate stops a program built with assertions)"])

prop("R01", "rx", "Workload: 1-4 threads matching 1-3 shared compiled expressions (random, up to 3 levels of groups, captures, alternatives, repetitions, look-ahead) against shared texts and slices of them, copying, reading, handing over and dropping results, and compiling the same expressions again.",
     "every match gives what it gives alone (computed before the threads start, on a private copy of the program) and what a reference matcher that follows every path gives (leftmost longest; captures of one of the ways to match); results keep their values; the compiled form never changes; happens-before race detection over every access",
     assumptions=["no assertions (^, $, look-ahead) inside a counted repetition: an iteration that matches nothing ends the repetition, which is then not the same as trying again elsewhere", "{0} is not generated: it means *"])
prop("R02", "rx", "Workload: as R01, mostly one thread, with allocation failures (one, a percentage, a burst, or all from some point on) injected while compiling and matching.",
     "std::bad_alloc is thrown exactly if an allocation failed; earlier results, the texts and the compiled form are unchanged; the same operation repeated with memory gives the right answer; nothing is left allocated and no block is misused or freed in the wrong way",
     assumptions=["after compile() throws, the caller deletes the nfa if it was set"])

prop("R03", "rx", "Workload: 1-4 threads compiling expressions written in every way the syntax offers (escapes, white space and comments in extended expressions), with features rejected or disabled one by one or all together, and cut, changed and arbitrary expressions, with and without allocation failures; what compiles is matched.",
     "an expression that uses a rejected feature is refused, one that uses a disabled feature means what is left when that syntax stands for itself, and all others mean the same as without the setting (reference matcher); a refusal has a message and a place within the text, before which nothing was wrong, and leaves nothing allocated; std::bad_alloc exactly if an allocation failed",
     assumptions=["as R01; what follows a disabled feature's character is generated so that it is not read as another operator"])
prop("R04", "rx", "Workload: expressions with nested groups, alternatives, repetitions (also of what can be empty) and look-aheads, matched against texts of up to some hundred characters that make backtracking expensive.",
     "steps of the simulated threads and the most blocks live at one time, during one match, stay below a fixed multiple of what a breadth-first matcher needs for the expression's size and the text's length; once a text is long compared with the expression, doubling it no more than doubles the steps and leaves the memory as it was; results of ordinary matches are the reference matcher's",
     assumptions=["as R01; the multiple is ten times the most the present code needs (growth: 2.6 where linear is 2), so that only super-linear growth exceeds it"])
PW = "random expressions (literals in all escape forms, classes, properties, anchors, groups, alternatives, nested repetition and look-ahead operators, labels) and grammars of 1-4 rules that call each other, with texts derived from them and then changed"
PS = ["the stream source: text that arrives in pieces of 1-7 bytes after delays, ends early or arrives changed"]
PA = ["alternatives are generated as the last part of a group or expression, never directly after a prefix operator (there, group them)", "a grammar that needs more than 3000 steps or 18 nested rules on a text is skipped (no memoization is promised)", "\\a \\d \\s \\L and so on mean what the character tables say, for bytes the ASCII characters; the tables are C02"]
prop("R05", "rx", "Workload: 1-4 threads listing shared and fresh compiled expressions (whole, or an instruction at a time) while others match with them; what any text compiles to is listed as well.",
     "the listing is read back: its bytes are the program's, its instructions go from the first byte to the last, every target is an instruction, names, groups and characters are the expression's; an interpreter that follows only the listing finds a match where matching does, and ends it at the same place; heap with exact bounds for everything the listing reads or prints; happens-before race detection",
     extra_stub=["standard output: collected from printf and its relatives"], assumptions=["as R01"])

prop("P01", "peg", "Workload: " + PW + ", matched and parsed from streams and from memory, as characters and as bytes, with and without captures.",
     "a reference interpreter of the documented semantics over the decoded text: success, extent, captures (name, extent, repetition, nesting), line and column afterwards; no input is waited for beyond the characters the interpreter has to look at; every copy of the source is released",
     extra_stub=PS, assumptions=PA)
prop("P02", "peg", "Workload: " + PW + ", matched and parsed with the non-capturing contexts while every allocation is refused.",
     "no allocation is asked for, and the result is the reference interpreter's", extra_stub=PS, assumptions=PA)
prop("P03", "peg", "Workload: " + PW + ", parsed with the tree-building context and with recording contexts, allocation failures (one, a percentage, a burst, or all from some point on) injected in 60% of the runs.",
     "the captures and the tree are those of the reference interpreter's successful path; std::bad_alloc is thrown exactly if an allocation failed, the same parse then succeeds with memory, and nothing is left allocated",
     extra_stub=PS, assumptions=PA)
prop("P04", "peg", "Workload: " + PW + ", shared by 1-4 threads that parse different texts at the same time.",
     "every parse gives the reference interpreter's result; happens-before race detection over every access to the heap and to global data",
     extra_stub=PS, assumptions=PA + ["parsers are constructed before the threads start: construction sorts the rule table"])
prop("P05", "peg", "Workload: " + PW + ", parsed with the tree-building context, most of them not to the end of the text.",
     "furthermost_success and the list of failures (atom, rule path, in order, each once) are those of the reference interpreter, for failed and for successful parses",
     extra_stub=PS, assumptions=PA + ["atoms written with a backslash, dots and anchors are not reported (documented in record_failure)"])
prop("P06", "peg", "Workload: expressions and rules made of arbitrary characters, cut and changed valid ones among them, in exactly sized buffers, matched and parsed from memory and from a stream.",
     "heap with exact bounds; every call returns; the result from the stream is the result from memory", extra_stub=PS, assumptions=["at most 7 bytes of text and three rules, so that recursion stays within the simulated stack"])

prop("V13", "share", "Workload: 1-4 threads that build strings (one to four bytes a character, damaged), arrays, maps and Variants of 3000-9000 bytes, read them in all ways, hand them to each other, change copies, slices and unshared values, grow them by single elements, use short arrays as stacks and queues, and fill reserved memory.",
     "the simulated heap counts what each thread allocates in each operation: nothing that grows with the content for copying, slicing, handing over and reading; the covered part, once, for the first change of a shared value; nothing for a change in place; a small multiple of the result for growing and building; what was taken off a value does not keep taking memory",
     assumptions=["limits leave room for headers, spare capacity (3 to 8 times the content) and small temporaries (700 bytes)"])
prop("V14", "share", "Workload: 1-4 threads that search, compare, convert and filter texts of 1500-4500 bytes (one to four bytes a character, damaged) and arrays of 1000-3000 elements, and build them from single pieces; slices as well as whole values, what is looked for being absent, at the far end, or nearly everywhere.",
     "the steps of the thread that makes the call are counted by the simulator, exactly and repeatably, and may not exceed a fixed number for each byte or element that has to be looked at (at least four times the largest number measured); bsearch() may ask log2(n)+1 times; looking up in a map, and changing it, log2(n) comparisons",
     assumptions=["a fixed number of steps per byte stands for linear time at the sizes used; quadratic time exceeds it 3 to 100 times over"])
prop("V15", "refs", "Workload: 1-5 threads, each with handles to objects of its own classes (plain, derived, static, linked to each other in chains), which they make, copy, assign (also to themselves and to what their own object holds), pass by value, cast, unshare, link, count by hand, hand over and drop.",
     "a ghost count of the handles and links that refer to each object: it is destroyed exactly when the last of them goes, by the thread that drops it, once; count and value read as they should; unshare leaves an object nobody else refers to, with the same content, and copies nothing when it is the only reference; happens-before race detection over the objects; heap with exact bounds; nothing is left allocated",
     assumptions=["an object's content is only changed by a thread that holds the only reference (that is what unshare is for)", "one handle is used by one thread at a time"])
BINARIES = sorted({p["bin"] for p in PROPS.values()})
