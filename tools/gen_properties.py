#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the wording lives in one readable place.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TH=["include/thread.h","src/thread.cpp"]
LK=["include/lockfree.h","src/lockfree.cpp"]
CD=["include/condition.h","src/condition.cpp"]
NOTHR="The baseline runs no multi-threaded test at all (thread_test is built but not run, and is itself flaky); "

p("T01","Latch: mutual exclusion, hand-over, probe and holding",
  "At any moment at most one thread is inside a given Latch, and everything a thread did before leaving it is visible to the next thread that enters. enter() and probe() succeed as soon as they can: a released latch is always obtained by some waiting thread, probe() never blocks and succeeds exactly when the latch is free, and holding() is true exactly for the thread that holds it. This is true of every Latch from its construction on, including latches first constructed by several threads at the same time.",
  ["schedules","programs"],"all interleavings of up to 5 threads doing enter/probe/holding/leave on shared and freshly constructed latches, with stalls of a holder at any point",
  NOTHR+"mutual exclusion and freedom from lost hand-overs quantify over every interleaving.",
  LK,[("error-checking mutex created from a lazily initialised static attribute","include/lockfree.h Latch::Latch"),("enter/probe/holding/leave","include/lockfree.h")],
  ["return values of probe/holding","order of critical sections","deadlock of the simulated program"],
  None,[("Latch::mutex","the lock","include/lockfree.h"),("Latch::initialised/attr","first-use initialisation","src/lockfree.cpp")])

p("T02","Condition: no lost wake-up, latch released and re-held atomically",
  "A thread that waits on a Condition with a Latch gives the latch up and starts waiting in one step, so a signal or broadcast made by any thread that changed the awaited state under the latch is never lost. signal() lets at least one waiting thread continue, broadcast() lets every waiting thread continue, and every wait returns holding the latch. With every waiter re-testing its predicate (spurious wake-ups being allowed), every thread whose predicate has been made true and signalled proceeds.",
  ["schedules","fault_sequences"],"all interleavings of producers, consumers, waiters and broadcasters (2-5 threads), with spurious wake-ups and stalls injected",
  NOTHR+"a lost wake-up needs a signal to land in a particular window between release and wait.",
  CD+LK,[("pthread condition variable bound to the latch's mutex","src/condition.cpp Condition::wait/signal/broadcast")],
  ["return of wait()","Latch::holding() after wait","deadlock of the simulated program"])

p("T03","Timed wait lasts as long as asked and reports the time left",
  "A timed wait on a Condition that nobody signals returns no earlier than the requested number of milliseconds and no later than shortly after, still holding the latch, with the delay argument set to 0. A timed wait that is woken early leaves in the delay argument the time that was still left, never more than was asked and never negative, so that repeating the wait with the same variable waits for the requested total. A signal made during the wait is never lost to the timeout.",
  ["schedules","fault_sequences","inputs"],"all delays, wake-up times relative to the deadline, spurious wake-ups, other threads holding the latch past the deadline, and starting clock values",
  "no test uses a timed wait; the outcome depends on when the signal, the deadline and the clock fall relative to each other.",
  CD,[("absolute deadline computed from the clock","src/condition.cpp Condition::wait(long&, Latch*)")],["simulated clock before and after","the delay argument"])

p("T04","A started thread runs exactly once and join waits for its end",
  "Starting a thread makes its run() execute exactly once, on its own thread, and never before the thread was started. join() returns only after run() has returned, everything run() did is then visible to the joiner, and join() does return once run() has returned, whatever other threads are being started, joined, reaped or destroyed meanwhile. After join() the Thread object may be destroyed and nothing touches it again.",
  ["schedules","histories"],"all interleavings and histories of start/join/destroy over up to 7 threads, with identifiers stored late, identifiers reused, and stalls at any point",
  NOTHR+"the hazards are interleavings of thread start-up and wind-down with join and destruction.",
  TH,[("ThreadProc waits under the latch for the identifier","src/thread.cpp Thread::ThreadProc"),("join","src/thread.cpp Thread::join")],
  ["run() counters","reads of run()'s effects after join","use-after-free of the Thread object","deadlock"])

p("T05","joinAny reports each ended thread exactly once and never blocks forever",
  "Each call of joinAny() returns a thread that was started and whose run() has returned and that no join or joinAny has reported before, and what that run() did is visible to the caller. It returns null only when no started thread other than the caller remains unreported, and when threads remain it returns once one of them has ended. It never returns a thread that has not ended, never reports a thread twice, and never waits for ever, also when other threads are joined, started or destroyed at the same time.",
  ["schedules","histories"],"all interleavings and histories mixing start, end, join, joinAny (from one or more threads) and destruction of up to 7 threads",
  NOTHR+"the order in which threads end, are counted and are reaped decides the outcome.",
  TH+CD,[("ended_count and ended_threads_condition","src/thread.cpp Thread::joinAny"),("ThreadProc marks Ended under the latch","src/thread.cpp")],
  ["sequence of joinAny results against the set of started and ended threads","deadlock"],None,
  [("Thread::threads","running and unreported threads by id","include/thread.h"),("Thread::ended_count","ended but unreported","include/thread.h")])

p("T06","Thread registry and current() survive identifier reuse",
  "Inside run(), current() is the Thread object whose run() is executing and its id() equals currentId(), and main() is always the initial thread's object. Joining, reaping or destroying one Thread never makes another live thread unknown, uncounted or unreportable, even when the operating system gives a new thread the identifier of one that has been joined. State kept for a thread disappears with it: after every thread is joined and destroyed, the library behaves as if none had been started.",
  ["schedules","histories","fault_sequences"],"histories of start/join/joinAny/destroy in which the simulated kernel hands out the identifier of any joined thread again, immediately or later",
  NOTHR+"identifier reuse is up to the kernel's allocator and cannot be produced on demand by a test.",
  TH,[("threads map keyed by OS id","include/thread.h Thread::resume/remove_ended/find"),("remove_ended in the destructor","include/thread.h Thread::~Thread")],
  ["Thread::current()","joinAny results of later generations of threads"])

p("T07","A thread that cannot be started leaves everything else intact",
  "When the operating system refuses to create a thread, resume() returns normally, that thread's run() is never executed, and it is never reported by joinAny(). All other threads can still be started, joined and reaped, joinAny() still returns null once nothing is outstanding, and the refused Thread can be destroyed.",
  ["fault_sequences","schedules"],"thread-creation failure injected at any subset of starts, in all interleavings",
  "no test makes thread creation fail.",
  TH,[("resume() registers the identifier pthread_create produced","include/thread.h Thread::resume")],
  ["joinAny results","deadlock, crash or assertion"])

p("T08","yield(ms) pauses for at least the requested time",
  "Thread::yield(ms) returns only after at least ms milliseconds have passed since the call, however often the sleep is interrupted, and it does return once that time has passed. Other threads run meanwhile.",
  ["fault_sequences","inputs","schedules"],"all requested durations with any sequence of signal interruptions of the underlying sleep",
  "signal interruptions at arbitrary points of a sleep cannot be arranged by a test.",
  TH,[("retry on EINTR with the remaining time","include/thread.h Thread::yield")],["simulated clock"])

p("T09","Operating-system threads are reclaimed exactly once",
  "Each operating-system thread that was successfully created is joined or detached exactly once, whether its Thread is waited for by join(), reported by joinAny(), or destroyed once it has ended without either. No identifier is joined or detached twice or after it has been given back. After all threads have been waited for, none is left unreclaimed.",
  ["schedules","histories"],"all interleavings and histories of start, join, joinAny and destroy over up to 7 threads",
  NOTHR+"the leak or double release leaves no visible result in a short test.",
  TH,[("pthread_join in join()","src/thread.cpp"),("reaping in joinAny()","src/thread.cpp")],["the simulated kernel's thread table"])

SV=["include/strval.h","include/refcount.h","include/array.h"]
AR=["include/array.h","include/refcount.h"]
p("V01","Strings are values: mutating one never changes another",
  "Changing a StrVal never changes the text, length or comparison results of any other StrVal, StrRef, substring or array element, however they were copied, sliced or assigned from each other. Each string behaves as if it had its own private copy of its characters, whichever threads hold copies and whenever they copy, change or drop them.",
  ["schedules","histories","programs"],"all histories of copy/slice/assign/mutate/drop over a pool of strings in 1-4 threads, all interleavings at the granularity of single memory accesses and atomic operations",
  "the tests mutate in one thread and in fixed sequences; sharing decisions depend on the reference count at the instant of the change.",
  SV,[("Unshare() copies a shared body before mutation","include/strval.h StrValI::Unshare/copyBody"),("atomic reference count","include/refcount.h RefCounted")],
  ["characters and length of every live string after every step, against per-handle model strings"])
p("V02","Arrays are values: mutating a slice never changes another",
  "Changing an Array never changes the length or elements of any other Array, slice or copy, whichever threads hold them and whenever they copy, change or drop them. Each array behaves as if it had its own private copy of its elements.",
  ["schedules","histories","programs"],"all histories of copy/slice/assign/mutate/drop over a pool of arrays (of integers, strings and arrays) in 1-4 threads, all interleavings",
  "fixed single-threaded sequences only.",
  AR,[("Unshare() before mutation","include/array.h ArrayR::Unshare"),("atomic reference count","include/refcount.h")],["elements of every live array against per-handle model lists"])
p("V03","Maps and Variants are values",
  "Changing a CowMap or Variant, including assigning a Variant or adding to an array or map held in one, never changes any other map, Variant, array or string, however they were copied from each other and whichever threads hold them. A map returns for each key the value last put for it in that map (or inserted, when it had none), and a Variant holds exactly the value and type last stored in it. Converted to another type it gives the same value or is refused, never another.",
  ["schedules","histories","programs"],"all histories of copy/put/insert/remove/clear/assign/coerce/drop over pools of maps and variants (nested up to 3 deep) in 1-4 threads, all interleavings",
  "fixed single-threaded sequences only.",
  ["include/cowmap.h","include/variant.h","include/refcount.h"],[("CowMap::Unshare","include/cowmap.h"),("Variant copy constructor/assignment/coerce","include/variant.h")],["contents of every live map and variant against per-handle models"])
p("V04","Shared storage is freed exactly once and never used afterwards",
  "Storage shared between strings, arrays, maps, variants and errors is freed exactly when the last handle to it goes, exactly once, and is never read or written after that or outside its bounds. When every handle has been dropped nothing remains allocated.",
  ["schedules","histories"],"all histories of create/copy/slice/assign (including self-assignment and assignment from an element of the same container)/drop over all value types in 1-4 threads, all interleavings of the reference-count operations",
  "a wrong interleaving of two releases is a window of a few instructions; the tests are single-threaded.",
  SV+["include/cowmap.h","include/variant.h","include/error.h"],[("RefCounted::AddRef/Release","include/refcount.h"),("Ref assignment order","include/refcount.h Ref::operator=")],["simulated allocator: bounds, lifetime and ownership of every access and block"])
p("V05","Separate handles never race",
  "Threads that each use only their own StrVal, Array, CowMap, Variant or Error handles never perform conflicting unsynchronised accesses to memory, even when all those handles share the same content, and neither do threads that share nothing but the library's Unicode functions or a compiled regular expression.",
  ["schedules","programs"],"all read and write operations of the value types executed on handles sharing content in 2-4 threads, under all interleavings",
  "nothing in the suite runs two threads on shared content; a race can stay invisible in any number of real runs.",
  SV+["include/cowmap.h","include/variant.h","src/char_encoding.cpp","src/case_conversions.c"],[("lazy character count","include/strval.h StrBodyI::countChars"),("memo of the last digit range","src/char_encoding.cpp UCS4Digit"),("atomic reference count","include/refcount.h")],["every memory access of the library, with happens-before vector clocks"])
p("V06","A string's results depend only on its characters",
  "Every operation on a StrVal (indexing, length, byte view, comparison, substring, search, concatenation, insertion, repetition, case change, transform, number conversion, joining, formatting) gives the result defined by the sequence of characters involved, whatever history of slicing, sharing, appending, growing and previous accesses produced the strings. A slice, a copy and a freshly built string with the same characters are indistinguishable.",
  ["histories","inputs"],"all histories of the public string operations over a pool of strings mixing 1- to 4-byte characters, with any allocator placement and recycled memory contents",
  "the tests check single calls on fresh strings; internal bookmarks, offsets, capacity and lazily cached counts depend on the whole history.",
  SV+["include/strformat.h"],[("slices with offset and length","include/strval.h StrRefI"),("bookmarks","include/strval.h StrBodyI::nthChar"),("lazy character count","include/strval.h")],["every return value against a code-point-sequence model"])
p("V07","An array's results depend only on its elements",
  "Every operation on an Array (indexing, slicing, search, comparison, concatenation, insertion, removal, append, push, pull, shift, set, functional methods) gives the result defined by the sequence of elements involved, whatever history of slicing, sharing, growing and shrinking produced the arrays.",
  ["histories","inputs"],"all histories of the public array operations over pools of arrays of several element types",
  "the tests check single calls on fresh arrays; offsets, capacity and sharing depend on the history.",
  AR,[("slice offset and length over a shared body","include/array.h ArrayR"),("growth policy","include/array.h ArrayBody::resize")],["every return value against a list model"])
p("V08","Allocation failure is contained",
  "When memory allocation fails during any operation on strings, arrays, maps or variants, the failure reaches the caller as std::bad_alloc, the handle being changed keeps either its old value or the value the operation would have produced, and every other handle keeps its value. All handles remain usable and destructible, nothing is corrupted, and nothing leaks.",
  ["fault_sequences","histories"],"allocation failure injected at any allocation (singly, in bursts, or for ever from a point on) of any history of the public operations",
  "no test makes an allocation fail.",
  SV+["include/cowmap.h","include/variant.h"],[("allocate before modifying","include/array.h ArrayBody::resize"),("transform replaces the body","include/strval.h StrBodyI::transform"),("Unshare","include/cowmap.h")],["values of all handles after the exception, simulated allocator"])
p("V09","Damaged UTF-8 text is read consistently and stays in bounds",
  "For text containing invalid, truncated or overlong UTF-8, length, forward iteration, indexed access from any position reading backwards and searching all agree on one sequence of characters, and substrings taken by character position put together again give back exactly the original bytes up to the point where that text is cut off. No operation reads or writes outside the text.",
  ["inputs","fault_sequences"],"all byte strings obtained by corrupting, truncating and splicing valid UTF-8, accessed in every order through any history of bookmarks and slices",
  "the tests contain a handful of damaged sequences, each accessed in one way.",
  ["include/char_encoding.h","include/strval.h","src/char_encoding.cpp"],[("UTF8Get/UTF8Len/UTF8Backup","include/char_encoding.h"),("nthChar forward and backward search","include/strval.h")],["characters by index, by iteration and by backward search"])
p("V10","Borrowed text is never changed, freed or kept by accident",
  "A string built over storage it does not own (static text, a caller's body) reads correctly and never modifies or frees that storage: changing any string derived from it changes only a private copy. The shared empty string stays empty and usable for ever, whatever any thread does with strings obtained from it.",
  ["schedules","histories"],"all histories and interleavings of deriving, slicing, changing and dropping strings over borrowed bodies and the shared empty string in 1-4 threads",
  "the tests do not re-examine borrowed text after use, nor the shared empty body after concurrent use.",
  SV,[("static bodies hold a reference to themselves","include/array.h ArrayBody constructor"),("Unshare copies static bodies","include/strval.h StrValI::Unshare"),("StrBodyI::nullBody","include/strval.h")],["borrowed bytes and the empty string after every step"])
p("V11","Guarded text pointers stay inside their text",
  "However a guarded text pointer is moved (steps either way, jumps either way, adding and subtracting, copying and assigning, in any order), it never goes past the terminating NUL, and a pointer that is also guarded at its start never goes back before the place it was first pointed at; values obtained from it by arithmetic and post-increment or -decrement are guarded in the same way. Moving by n characters is moving n times by one; the UTF-8 pointers always stand at the start of a character (each byte of damaged text that belongs to no complete sequence being one) and going back undoes going on. at_eof() and at_bot() say exactly whether the end or the origin has been reached, and nothing outside the text is read, even when the text is damaged.",
  ["inputs","histories","fault_sequences"],"all texts, well-formed or corrupted and cut anywhere, and all histories of moves over them by any of the pointer kinds",
  "one short test moves one UTF-8 pointer kind over one text and never reaches either end; the other kinds are not tested.",
  ["include/char_ptr.h","include/utf8_ptr.h","include/char_encoding.h"],[("guarded moves of char pointers","include/char_ptr.h NulGuardedCharPtr, GuardedCharPtr"),("guarded moves by UTF-8 characters","include/utf8_ptr.h NulGuardedUTF8Ptr, GuardedUTF8Ptr"),("UTF8Backup with a limit","include/char_encoding.h")],["position, character, at_eof() and at_bot() after every move"])
p("V12","JSON text says exactly what the value is",
  "The JSON text made from a Variant or string is valid JSON that reads back to the same value (null, integers, strings of any characters, arrays, maps, nested in any way), in every indent style: -2 without any white space, -1 on one line, n on lines of their own indented by two spaces per level. It depends only on the value, not on how it was built, what it shares its content with, or which threads hold copies of it. Rendering changes no value, though making a string into its JSON form changes that string.",
  ["histories","inputs","schedules"],"values built by all histories of the public operations, nested up to 3 deep and shared between 1-4 threads, all indent styles",
  "the tests print a few values without comparing the text.",
  ["include/variant.h","include/strval.h"],[("as_json","include/variant.h Variant::as_json"),("toJSON, asJSON","include/strval.h StrBodyI::toJSON")],["the text, read back"])
p("V13","Copies and slices share; changing copies once; memory follows content",
  "Copying, slicing, passing, storing and reading a string, array, map or Variant never copies its content, however long it is and whichever threads hold it (only text over borrowed storage, which may go away, is copied), nor does adding it to an empty value, or joining two slices that lie together in one content. The first change made through a handle whose content is shared copies at most what that handle covers, and later changes through it copy nothing until it is shared again; a handle that is the only one on its content is changed in place. Appending single elements costs amortised constant memory traffic, memory reserved beforehand is used, and elements that have been taken off again do not add up, however long a value is used.",
  ["histories","schedules"],"all histories of building, copying, slicing, reading, changing, growing and shrinking large values in 1-4 threads that hand them to each other",
  "the tests use values of a few elements, where a needless copy or a leaked slack can't be seen, and never measure memory.",
  SV+["include/cowmap.h","include/variant.h"],[("Unshare copies only the slice","include/array.h ArrayR::Unshare"),("growth policy","include/array.h ArrayBody::resize"),("copy on write of maps","include/cowmap.h Unshare")],["bytes and blocks each thread asks the simulated heap for in each operation"])
p("V14","Text and array operations take work in proportion to what they look at",
  "Searching a string or a slice of one (for a character, a string, any or none of a set, in either direction), comparing, changing case, transforming, escaping as JSON, joining, repeating, and building a string by appending pieces take a number of steps in proportion to the text involved (for a string that is looked for: to that times its own length), whatever mixture of 1- to 4-byte characters it holds and wherever the slice starts. Array operations are linear in the elements they cover, appending and taking off at the end are amortised constant, bsearch() and map operations logarithmic.",
  ["inputs","histories"],"long texts of any mixture of characters, whole or sliced, with what is looked for absent, at the far end or nearly everywhere; built in one go or piece by piece; in 1-4 threads",
  "the tests use texts of a few characters and measure no time; a quadratic search passes every one of them.",
  SV+["include/cowmap.h"],[("bookmarks","include/strval.h StrBodyI::nthChar, StrBookmark"),("character count kept","include/strval.h StrBodyI::insertBytes"),("growth policy","include/array.h ArrayBody::resize")],["steps of each call, counted by the simulator"])
p("V15","Reference-counted objects live exactly as long as they are referred to",
  "An object of any class derived from RefCounted is destroyed when the last reference to it goes (a Ref, or a count added by hand), exactly once, by the thread that drops it, and not before; what each thread did with the object is visible to its destructor. Refs may be copied, assigned (also to themselves, or to what their own object holds), passed by value, cast to a base class, made from and turned into plain pointers, linked in chains and handed between threads in any order. Objects made with a count of their own (static ones) are never destroyed. Unshare() leaves the Ref with an object of the same content that nothing else refers to, copies nothing when it held the only reference, and keeps the old object when there is no memory for the copy.",
  ["schedules","histories","fault_sequences"],"all histories of making, copying, assigning, linking, casting, unsharing and dropping references in 1-5 threads; allocation failure in Unshare",
  "no test uses RefCounted and Ref directly.",
  ["include/refcount.h"],[("AddRef, Release","include/refcount.h RefCounted"),("operator=, Unshare, Cast","include/refcount.h Ref")],["destruction of every object against a ghost count of its references; content; GetRefCount in one thread"])
p("E01","Error values are shared and released safely",
  "An Error keeps its number, default text and parameters for as long as any copy of it exists, whichever threads copy, assign and drop copies, and an empty Error always reads as no error. ErrNum conversion and comparison of copies agree with the original. Every message number (14 bits) of every set (16 bits) has an error number of its own, which has the sign bit set, gives back the set and the message, and compares with other numbers in their order; no error is 0.",
  ["schedules","histories"],"all histories and interleavings of creating, copying, assigning and dropping errors in 1-4 threads",
  "err_test checks one value in one thread.",
  ["include/error.h","include/refcount.h"],[("Ref<Body>","include/error.h")],["number, text and parameters of every live error"])
p("C01","Unicode classification and case mapping are the same from every thread",
  "Digit value, case mapping, and character classification functions return for each character the same result whichever other threads call them, in whatever order and with whatever characters before, namely the result they give when called alone.",
  ["schedules","histories"],"all interleavings of calls with any characters in 1-4 threads, at single memory-access granularity",
  "the functions remember the last range they used in static variables; a wrong answer needs two threads to interleave within one call.",
  ["src/char_encoding.cpp","src/case_conversions.c","include/char_encoding.h"],[("memoised range tables","src/char_encoding.cpp, src/case_conversions.c")],["return values against a table computed alone"])
p("C02","Character functions give Unicode's values after any history of calls",
  "Whatever was looked up before, and from whichever threads, each code point's upper, lower and title case are Unicode's simple mappings, its digit value is Unicode's (including the ideographic zero and the Hangzhou numerals), and classification agrees with them, for every character that the library's tables (Unicode 3.0) cover; all other values map to themselves. Mapping twice to one case is the same as once. Every character converts to UTF-16 and back unchanged in either byte order, touching no more units than its length, and surrogates are recognised exactly; a zero padded to n bytes of UTF-8 takes n bytes and reads as zero.",
  ["histories","inputs"],"all code points (and values past Unicode), in any order, from 1-4 threads; UTF-16 text in exactly sized memory",
  "only a few characters are tested, each function once; the functions remember the range they used last.",
  ["src/char_encoding.cpp","src/case_conversions.c","include/char_encoding.h"],[("memoised look-ups","src/char_encoding.cpp"),("range tables","src/case_conversions.c"),("UTF16 functions","include/char_encoding.h")],["return values against Unicode data and an independent encoder"])
RX=["rx/rxcompile.cpp","rx/rxmatch.cpp","rx/strregex.h"]
p("R01","One compiled regular expression serves any number of threads",
  "A compiled regular expression can be used by several threads at the same time, each with its own text, and every match gives exactly the result (success, position, captures) that the same match gives when run alone: the leftmost match, of those the longest, with captures from one way of matching it. Matching never modifies the compiled expression, and results stay valid after further matches and after the matched strings are changed or dropped.",
  ["schedules","inputs","histories"],"random expressions over the implemented feature set and texts, matched in 1-4 threads over one program, all interleavings",
  "rxmatch_test runs each match once in one thread.",
  RX,[("program is read-only during a match","rx/rxmatch.cpp RxMatch"),("result sharing between threads of the matcher by reference count","rx/rxmatch.cpp RxResult")],["results against the same match run alone and against a reference matcher"])
p("R02","Regular expression compile and match survive allocation failure",
  "When memory allocation fails while compiling or matching a regular expression the failure reaches the caller as std::bad_alloc or a reported error, the text, the expression and every earlier result are unaffected, the same operation gives the right answer when repeated with memory available, and nothing leaks or is corrupted.",
  ["fault_sequences","inputs"],"allocation failure injected at every allocation of compiling and matching random expressions and texts",
  "no test makes an allocation fail.",
  RX,[("compiler allocates the program once","rx/rxcompile.cpp"),("matcher owns its thread lists and results","rx/rxmatch.cpp")],["results after recovery; simulated allocator"])
p("R03","A regular expression means what the enabled features say, or is refused with a reason",
  "Which syntax an expression may use is chosen when the compiler is made, and that choice is followed for every expression, from any number of threads, and when memory runs out. An expression that uses a rejected feature is refused; the syntax of a feature that is not enabled stands for its own characters, and ? stands for any character in place of . where that was asked for; rejecting or disabling one feature changes nothing about the others. Every way of writing a character (escapes by letter, octal, hexadecimal, Unicode) matches exactly that character, and in extended expressions white space and comments change nothing. An expression is either compiled, with no message and a result that can be matched, or refused, with a message, the place where it first went wrong, and no result. An expression of any length compiles to a program that does what the expression says.",
  ["inputs","fault_sequences","schedules"],"random expressions in all spellings under random sets of enabled and rejected features, malformed expressions, 1-4 threads, allocation failures",
  "rxcompile_test compiles a list of expressions with all features enabled.",
  RX,[("supported() and enabled()","rx/rxcompile.cpp RxCompiler::scanRegex"),("error_message and error_offset","rx/rxcompile.cpp")],["whether it compiles; message and place; what it matches, against a reference matcher"])
p("R04","Matching takes time linear in the text and limited memory",
  "A match takes a number of steps that is linear in the length of the text, and memory that does not grow with the text, for every expression: alternatives, nested repetitions and repetitions of what can be empty do not multiply. (README: linear runtime and strictly predictable, and limited, memory usage. A look-ahead is a match of its own at each place where it is tried.)",
  ["inputs","schedules"],"ambiguous expressions (nested repetitions, alternatives that can be empty, counted repetitions) and texts chosen to make backtracking expensive; other threads matching at the same time",
  "no test measures a match.",
  RX,[("threads are not added twice at one place","rx/rxmatch.cpp RxMatch::addthread"),("counters","rx/rxmatch.cpp RxMatch")],["instrumented steps and live blocks of one match"])
p("R05","The listing of a compiled expression is the program that runs",
  "dump() writes the listing of a compiled expression to standard output: first its bytes, then every instruction once, in order, from the first byte to the final NUL, each with its place and what it refers to. Jumps, alternatives, counters and look-aheads lead to instructions that are listed, characters, classes and group names and numbers are those of the expression, and following the listing finds a match exactly where RxProgram does, with the same end. dumpHex and dumpInstruction print the same, piece by piece. Listing reads nothing beyond the program, changes nothing, and can be done by any number of threads while others match. A compiled program contains no NUL before its last byte.",
  ["inputs","schedules"],"random expressions of up to hundreds of bytes and 254 named groups, and arbitrary text that compiles; 1-4 threads listing and matching",
  "the tests only list a program when they fail.",
  ["rx/rxdump.cpp","rx/rxcompile.cpp"],[("dump, dumpHex, dumpInstruction","rx/rxdump.cpp"),("the second pass emits instructions and offsets","rx/rxcompile.cpp RxCompiler::compile")],["what is written to standard output, read back and followed by an interpreter, against the matcher"])
PG=["include/pegexp.h","include/peg.h"]
p("P01","A parse depends only on the input's bytes, not on how they arrive",
  "Parsing from a Source that delivers the same bytes in pieces and with delays gives the same outcome, matched extent and captures as parsing them from memory, namely those that the documented prefix-operator semantics define for that input. If the input ends early, the outcome is that of the shortened input. No input is waited for beyond the characters the outcome depends on, and a successful match leaves the source at its end with the right line and column. Each copy of a Source re-reads the same data, so backtracking never loses or repeats input.",
  ["inputs","fault_sequences","schedules"],"random expressions, grammars and texts; all chunkings, delays and truncations of the input",
  "the tests parse in-memory text only.",
  PG,[("Source copies for backtracking","include/pegexp.h Pegexp::match_atom"),("State save and restore on failure","include/pegexp.h")],["match extent, captures and source position against a reference interpreter"])
p("P02","Parsing without captures needs no heap memory",
  "Matching a pegular expression or parsing with a grammar using the default (non-capturing) contexts allocates no heap memory, so it gives the same result when every allocation fails.",
  ["fault_sequences","inputs"],"all allocations refused during matching of random expressions, grammars and texts",
  "peg_size_test and pegexp_size_test measure code size; nothing refuses allocations.",
  PG+["README.md"],[("all state lives on the stack","include/pegexp.h, include/peg.h")],["allocator calls during the match"])
p("P03","Captures come exactly from the path that matched",
  "After a successful parse the captures delivered to a capturing context are exactly those of the successful path in the order matched: nothing captured in an abandoned alternative, failed iteration or look-ahead remains, and nothing on the successful path is missing. The syntax tree built by the supplied context is the same whatever was tried and abandoned on the way, building it takes work in proportion to that of matching, and building it frees everything it does not return, including when allocation fails.",
  ["inputs","fault_sequences"],"random grammars and texts with labelled atoms and rule calls nested in alternatives, repetitions and look-aheads; allocation failures at any point",
  "the tests check a few fixed grammars.",
  PG+["include/peg_ast.h"],[("rollback_capture on every failure path","include/pegexp.h"),("PegContext::capture","include/peg_ast.h")],["captures and AST against a reference interpreter"])
p("P04","One set of grammar rules serves any number of threads",
  "Parsers built once over a rule table can parse different texts in several threads at the same time, and each parse gives the result it gives when run alone, without conflicting accesses to the rules.",
  ["schedules","inputs"],"random grammars and texts parsed in 1-4 threads over one parser, all interleavings",
  "the tests parse in one thread.",
  PG+["include/peg_ast.h"],[("per-call contexts on the stack","include/peg.h Peg::parse")],["results against the same parse run alone"])
p("P05","A parse reports how far it got and what was wanted there",
  "After a parse with the supplied tree-building context, failed or successful, the result holds the furthest point at which a plain character or character class of a rule failed to match, and exactly the plain characters and classes that failed there outside look-aheads, each once, in the order tried, with the path of rules that led to it.",
  ["inputs"],"random grammars and texts, most of which don't match to the end",
  "the tests print failures for a few fixed inputs and don't compare them.",
  PG+["include/peg_ast.h"],[("PegContext::record_failure","include/peg_ast.h"),("record_failure call","include/pegexp.h Pegexp::match_atom")],["furthermost_success and failures against a reference interpreter"])
p("P06","Any text is safe as an expression",
  "A match or parse with any text as expression or rule, however malformed (unclosed groups and classes, trailing operators and backslashes, unknown rules, stray brackets), never reads outside the expression or the input, comes to an end, frees what it allocates, and gives the same result whether its input comes from memory or from a stream.",
  ["inputs","fault_sequences"],"arbitrary and mutated expressions and rules over arbitrary, damaged and truncated texts",
  "the tests use well-formed expressions.",
  PG,[("literal_char, skip_atom, char_class","include/pegexp.h"),("PegPegexp::match_extended","include/peg.h")],["bounds of every access; results from two sources"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
