#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSON lines are no fun to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
INC, SRC = 'code/include/swoc/', 'code/src/'
P = []
def prop(id, title, stmt, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

FILES = [SRC+'swoc_file.cc', INC+'swoc_file.h']
FT = 'Tests run a few calls on a quiet real file system: no call is ever interrupted, short, or failing, and nobody else touches the tree.'

prop('F01', 'A file copy that reports success reproduced the source exactly',
 'When copying a file reports success, the destination file (the file of the same name inside it when the destination is a directory) holds exactly the bytes of the source and nothing else, whatever was there before, and a destination created by the copy takes the source\'s permissions. '
 'When the content cannot be reproduced the call returns false and reports the error that prevented it; interrupted or short reads and writes alone neither lose data nor cause failure. The source is never altered, and no other file is touched.',
 ['inputs', 'fault_sequences', 'histories'], 'every source content and size, every prior state of the destination, every sequence of short, interrupted or failing system calls (EINTR, EIO, ENOSPC, EDQUOT, EMFILE, EACCES)',
 FT + ' The copy test copies 16 bytes to a fresh file once.', FILES, [('copy loop and its error returns', SRC+'swoc_file.cc copy()')],
 observe=['return value, error code, bytes and mode of the destination'])

prop('F02', 'Loading a file returns its exact content or reports an error',
 'Loading a file reports no error only when the returned string is exactly the file\'s content, from the first byte to end of file, for any size and kind of readable file, including files whose reported size is zero or wrong. '
 'Any failure is reported as a non-zero error, never as success with missing, padded or invented bytes; interrupted and short reads alone do not cause failure.',
 ['inputs', 'fault_sequences', 'schedules'], 'every file size and content, every pattern of short/interrupted/failing reads, and every interleaving with another process that appends to or truncates the file during the load',
 FT, FILES, [('size from fstat, read into the string', SRC+'swoc_file.cc load()')], observe=['returned string and error code'])

prop('F03', 'Recursive removal deletes the whole tree and nothing outside it',
 'Recursive removal of a path deletes entries only at or below that path: a symbolic link inside the tree is deleted as a link and its target is left alone, wherever it points. '
 'When it reports no error nothing remains at the path, of any file type; the returned number is the number of entries that were actually deleted; and whenever something could not be deleted an error is reported.',
 ['inputs', 'fault_sequences', 'histories', 'schedules'], 'every tree of files, directories, links (also dangling and cyclic), fifos, sockets and devices, every system call failure, and every concurrent creation or deletion of entries by another process',
 FT + ' The tests remove one tree of two directories and three regular files.', FILES, [('type dispatch, recursion and counting', SRC+'swoc_file.cc remove_all()')],
 observe=['every unlink/rmdir that reaches the file system', 'return value', 'error code'])

prop('F04', 'Removing one entry removes exactly that entry and reports truthfully',
 'Removing a path deletes at most that one entry: a regular file, a link or an empty directory, never the content of a directory nor the target of a link. '
 'It returns true exactly when the entry was deleted by this call, and otherwise returns false with the error that prevented it, independently of what the caller\'s error variable held before the call.',
 ['inputs', 'histories', 'fault_sequences'], 'every kind of entry and every history of earlier calls sharing one error variable, under every system call failure', FT, FILES,
 [('type dispatch and result from error code', SRC+'swoc_file.cc remove()')], observe=['return value, error code, file system state'])

prop('F05', 'Directory creation returns true exactly when the directory exists',
 'Creating a directory, or a directory with all its missing ancestors, returns true with no error only if every directory on the path exists when it returns, and returns false with an error otherwise; an already existing directory, or one created at the same moment by another process, is success, and an existing non-directory is an error. '
 'Directories are created with the requested mode, in order from the outermost, and nothing else is created or changed.',
 ['inputs', 'fault_sequences', 'schedules'], 'every path shape (absolute, relative, repeated and trailing separators, links), every pre-existing tree, every system call failure, every concurrent creation or deletion', FT, FILES,
 [('EEXIST handling', SRC+'swoc_file.cc create_directory()'), ('prefix walk', SRC+'swoc_file.cc create_directories()')], observe=['return value, error code, directories and modes'])

prop('F06', 'File queries tell the truth about the file system or report an error',
 'Status, existence, type, size, time stamp, readability, absolute, canonical and current directory queries describe the file system as it is at the call, with time stamps to full precision before, at and after the epoch and across clock jumps. '
 'When the underlying system call fails the query reports that error and returns its documented failure value, never data left over from earlier, and a successful query leaves no error behind from previous calls.',
 ['inputs', 'histories', 'fault_sequences'], 'every file system state and time stamp, every failing system call, every history of earlier queries sharing error variables and result objects', FT, FILES,
 [('stat wrappers', SRC+'swoc_file.cc status()'), ('path resolution', SRC+'swoc_file.cc absolute(), canonical(), current_path()'), ('time stamp conversion', SRC+'swoc_file.cc chrono_cast()')],
 observe=['returned values and error codes'])

prop('F07', 'File operations release every descriptor and allocation they acquire',
 'After any file operation returns, whether it succeeded, failed or was cut short by an error, every file descriptor, directory stream and temporary allocation it acquired has been released, each descriptor was closed exactly once, and no descriptor the operation did not open was used or closed. '
 'Repeating operations any number of times therefore never exhausts descriptors or memory.',
 ['histories', 'fault_sequences'], 'every operation, every history and every failing or interrupted system call (including failing close)', FT + ' Nothing in the tests observes descriptors or leaked memory.', FILES,
 [('unique_fd', INC+'swoc_meta.h / swoc_file.h / MemSpan'), ('closedir on exit', SRC+'swoc_file.cc remove_all()'), ('free of realpath results', SRC+'swoc_file.cc')], observe=['open descriptor table and live allocations after every call'])

prop('F08', 'An interrupted file operation damages nothing and can be run again',
 'If the process dies at any point inside a file operation, everything the operation was not asked to change is exactly as before: the source of a copy, other files, and everything outside a tree being removed or created. '
 'Running the same operation again after the restart, without further faults, succeeds and leaves the same final state as an uninterrupted run.',
 ['crash_points', 'inputs'], 'every operation, every tree and every crash point between two system calls', 'No test kills the process inside an operation.', FILES,
 [('ordering of system calls, no partial-state dependence', SRC+'swoc_file.cc copy(), remove_all(), create_directories()')], observe=['surviving file system state'])

AR = [SRC+'MemArena.cc', INC+'MemArena.h']
prop('A01', 'Arena allocations are disjoint, aligned, and keep their contents',
 'Every allocation handed out by a memory arena has at least the requested size and alignment, lies in memory the arena reserved (or the static block it was given), overlaps no other live allocation, and keeps its contents until the arena is cleared, thawed over it, or destroyed. '
 'This holds whatever sequence of allocations, reservations, partial discards, freezes, thaws and moves the arena goes through.',
 ['inputs', 'histories'], 'every history of operations, sizes (including zero and far larger than a block) and alignments by any number of users of one arena',
 'Tests allocate a few fixed sizes in a fixed order; the block selection and remnant logic has a large state space of fill levels, block order and frozen generations.', AR,
 [('block selection and padding', SRC+'MemArena.cc alloc(), require(), make_block()')], state=[('active / frozen block lists', 'memory reserved in each generation', INC+'MemArena.h')], observe=['returned spans and their bytes'])

prop('A02', 'Arena freeze, thaw, clear and accounting follow their contract',
 'Freezing retires current allocations without disturbing them, later allocations come from new memory, thawing releases exactly the frozen generation, and clearing or destroying releases everything except a static block, which is never freed and stays usable. '
 'Reported sizes (allocated, reserved, remaining), the membership test and the remnant always agree with that history, reserved memory that was required is available to the next allocations, and moving an arena transfers all of it.',
 ['histories'], 'every history of allocate, require, remnant, discard, freeze, thaw, clear, move and destroy, with and without a static block and size hints',
 'Tests walk a handful of scripted freeze/thaw sequences and never combine them with static blocks, moves or repeated cycles.', AR,
 [('generation switch', SRC+'MemArena.cc freeze(), thaw(), clear()'), ('accounting', INC+'MemArena.h')], observe=['accounting queries, block destruction, releases to the allocator'])

prop('A03', 'An arena survives failed allocations with all its contents intact',
 'When the system allocator fails, an arena operation reports it by throwing the standard out-of-memory exception, and everything allocated before is intact, its accounting is unchanged by the failed reservation, and the arena keeps working once memory is available. '
 'No block is leaked or released twice over any sequence of failures.',
 ['fault_sequences', 'histories'], 'every history of arena operations with allocation failure at any subset of allocator calls', 'No test makes an allocation fail.', AR,
 [('block creation', SRC+'MemArena.cc make_block()')], observe=['exceptions, contents, accounting, allocator ledger'])

prop('A04', 'Pooled objects never share storage and are recycled without loss',
 'A fixed-size object pool gives every live object its own storage, sized and aligned for the type; a destroyed object has its destructor run exactly once and its storage is reused, so memory does not grow beyond the peak number of live objects. '
 'This holds for every create and destroy order, also when object construction throws or the arena runs out of memory.',
 ['histories', 'fault_sequences'], 'every create/destroy/clear history with throwing constructors and failing allocations', 'Tests create and destroy a few objects in a fixed order.', [INC+'MemArena.h', SRC+'MemArena.cc'],
 [('free list', INC+'MemArena.h FixedArena')], observe=['object addresses, constructor and destructor counts, reserved size'])

prop('A05', 'An arena makes few system allocations and wastes a bounded share of memory',
 'While an arena is filled without further size hints, each block it gets from the system is at least as large as all it has reserved, so their number grows only logarithmically, the memory reserved stays within a constant factor of what was asked for (beyond what was asked for in advance or held before), '
 'and no memory is requested while a block that is not full has room. What is put in again after a clear or freeze, and is no more than there was, takes a single block; after a discard the blocks that are there are used again. Failed system allocations change none of this.',
 ['histories', 'fault_sequences'], 'every history of allocations of any sizes and alignments, clears, freezes, thaws, discards and moves, with system allocations failing at any points', 'Tests do not count system allocations; an arena that asks the system for every piece still returns right memory.', [INC+'MemArena.h', SRC+'MemArena.cc'],
 [('reservation hint and block size', SRC+'MemArena.cc make_block()'), ('search for a block with room', SRC+'MemArena.cc require()')], observe=['calls of malloc, sizes of the blocks'])

SP = [INC+'DiscreteRange.h', INC+'IPRange.h', INC+'RBTree.h', SRC+'RBTree.cc']
prop('S01', 'An IP space always equals the painted map of its operation history',
 'After any history of mark, fill, erase, blend and clear, looking up any address yields exactly the payload the painting rules give that address: mark replaces, fill affects only unpainted addresses, erase removes, blend combines per address (starting from a default payload where there was none, and removing where the blender declines). '
 'Addresses outside an operation\'s range are never affected by it, IPv4 and IPv6 never affect each other, and this includes the extreme addresses of each family.',
 ['inputs', 'histories'], 'every history of painting operations over every range (touching, overlapping, nested, spanning, single, whole space, touching the ends) and payload', 'Tests use a few dozen scripted ranges; the number of relative positions of a range to its neighbours and payload equalities is far larger.', SP,
 [('range splitting and coalescing', INC+'DiscreteRange.h DiscreteSpace mark/fill/erase/blend'), ('family dispatch', INC+'IPRange.h IPSpace')], state=[('range nodes', 'disjoint coloured ranges', INC+'DiscreteRange.h')], observe=['find() for addresses in and around all ranges ever used'])

prop('S02', 'An IP space stays ordered, disjoint, counted and coalesced',
 'Iterating an IP space or IP range set, in either direction, visits each painted range exactly once in address order with IPv4 before IPv6, the ranges are non-empty, disjoint, and cover exactly the painted addresses; adjacent ranges with equal payloads made by painting are presented as one. '
 'Counts (total and per family), emptiness, per-family iteration, intersection queries and set membership always agree with that sequence.',
 ['histories', 'inputs'], 'every history of painting operations, every intersection query', 'Tests check counts and iteration at the end of a few scripted histories.', SP,
 [('ordered list threaded through the tree', INC+'DiscreteRange.h'), ('composite iterators', INC+'IPRange.h')], observe=['iteration, count, intersection'])

prop('S03', 'A failed painting operation leaves an IP space valid and contained',
 'If an allocation fails or a user callback (blender, payload copy) throws during a painting operation, the exception reaches the caller and the space remains fully usable: its ranges are still ordered and disjoint, no address outside the requested range has changed, and each address inside it has either its old or its new value. '
 'Every stored payload is destroyed exactly once when the space is cleared or destroyed, whatever failed in between.',
 ['fault_sequences', 'histories'], 'every painting history with failure at any subset of allocations, payload copies and blender calls', 'No test throws from a payload or a blender, or fails an allocation.', SP,
 [('node creation during clipping and splitting', INC+'DiscreteRange.h mark/fill/erase/blend')], observe=['lookups, iteration, payload construction/destruction ledger'])

prop('S04', 'Range lookup cost stays logarithmic after any history',
 'The number of address comparisons needed to look up an address grows only logarithmically with the number of ranges held, after any history of painting operations, including monotonic, alternating and adversarial insertion and removal orders. '
 'Lookup never depends on the order in which ranges were added.',
 ['histories'], 'every history of insertions and removals of ranges', 'Tests time nothing and count nothing; an unbalanced tree still returns right answers.', [SRC+'RBTree.cc', INC+'RBTree.h', INC+'DiscreteRange.h'],
 [('red-black rebalancing', SRC+'RBTree.cc')], observe=['comparisons counted by an instrumented metric type'])

HM = [INC+'IntrusiveHashMap.h', INC+'IntrusiveDList.h']
prop('H01', 'The intrusive hash map finds, counts and iterates exactly its elements',
 'After any history of insert, erase (by element, iterator or range), iteration, clear, explicit and automatic expansion and moving, every element in the map is found by its key, nothing else is found, elements with equal keys form one contiguous range in the order they were inserted, and count and full iteration agree with the set of inserted and not yet erased elements. '
 'Elements themselves are never copied, and removed elements can be inserted again.',
 ['histories', 'inputs'], 'every operation history, hash distribution (including all keys colliding) and expansion policy', 'Tests insert a few dozen distinct strings; collisions, duplicates, erasure at bucket boundaries and expansion in between are hardly reached.', HM,
 [('bucket bookkeeping', INC+'IntrusiveHashMap.h insert(), erase(), expand()')], state=[('bucket table', 'first element, count and mixed flag per hash bucket', INC+'IntrusiveHashMap.h')], observe=['find, equal_range, count, iteration'])

prop('H02', 'The intrusive hash map loses nothing when memory runs out',
 'If growing the table fails because memory is exhausted, no element is lost: every element inserted before the failure is still found and iterated exactly once, an insertion that reports failure has either happened completely or not at all, and the map keeps working afterwards.',
 ['fault_sequences', 'histories'], 'every operation history with allocation failure at any subset of table allocations', 'No test fails an allocation.', HM, [('table growth', INC+'IntrusiveHashMap.h expand()')], observe=['find, count, iteration after a failure'])

prop('H03', 'Hash map operations touch few elements after any history',
 'With hash values that are spread, finding a key or an element that is in an intrusive hash map, or that is not, compares on average no more keys than a small multiple of what the expansion policy and limit allow in a bucket, however many elements the map holds and whatever history of insertions, erasures, clears, moves, explicit expansions and changed limits it went through; '
 'so does erasing, and inserting on average over the history. If memory for growing was short, the map catches up with the first insertions after memory is available again.',
 ['histories', 'fault_sequences'], 'every operation history with spread hash values, every expansion policy and limit, and every period in which memory cannot be had', 'Tests time nothing and count nothing; a map that walks all of its elements still returns right answers.', HM,
 [('growth by policy', INC+'IntrusiveHashMap.h insert(), expand()'), ('end of a bucket', INC+'IntrusiveHashMap.h Bucket::limit()')], observe=['key comparisons and element accesses counted by the element class'])

prop('L01', 'An intrusive list is exactly the sequence its operations produce',
 'After any history of prepend, append, insert before or after, erase of elements and ranges, take, splice-style transfers and moves, iterating the list forward and backward yields the same sequence a reference list would, with matching count and ends. '
 'An iterator held by one user stays valid while other users change other elements, and a removed element carries no links and can be put in any list.',
 ['histories', 'schedules'], 'every history and every interleaving of operations by several users holding iterators into one or more lists', 'Tests script short sequences by one user.', [INC+'IntrusiveDList.h'],
 [('link update', INC+'IntrusiveDList.h')], observe=['iteration both ways, count, element links'])

LX = [INC+'Lexicon.h', INC+'IntrusiveHashMap.h', SRC+'MemArena.cc']
prop('F09', 'Path arithmetic leads where the steps it stands for lead',
 'Whatever history of assigning, copying, joining, moving and taking apart a path went through - also appending to itself or a part of itself, and memory failing at any point - it is exactly the text that history describes, and is unchanged by a step that failed. '
 'In the file system a path joined from two parts leads where the second leads from the first, an absolute part replaces what was there, the parent path and the file name lead to the directory holding the entry and to the entry in it, the relative path is never absolute and leads there from the root; equal paths have equal text and hash.',
 ['histories', 'inputs', 'fault_sequences'], 'every path, tree and history of steps', 'Tests use a few short literal paths.', [SRC+'swoc_file.cc', INC+'swoc_file.h'], [('path arithmetic', INC+'swoc_file.h path')], observe=['text of each path, entry the kernel finds by it'])
prop('X01', 'A lexicon is a consistent two-way mapping of values and names',
 'After any history of definitions, every defined value has its primary name and every defined name, compared without regard to case, has its value; anything not defined yields the default given for it (value, name, or handler) or an exception if there is none, and iteration and count show exactly the definitions. '
 'Names are owned by the lexicon: the caller\'s strings may change or vanish afterwards, and a moved lexicon keeps everything.',
 ['histories', 'inputs'], 'every history of definitions (with aliases, case variants, rejected duplicates), default changes, moves and lookups', 'Tests use two small static enumerations.', LX,
 [('item arena and two hash maps', INC+'Lexicon.h define()')], observe=['lookups both ways, iteration, count'])

prop('X02', 'A failed lexicon definition leaves the lexicon unchanged',
 'A definition that is rejected (a name that is already defined, or no name at all) or that fails for lack of memory changes nothing: every mapping is as before in both directions, count and iteration are unchanged, and a later attempt can succeed.',
 ['fault_sequences', 'histories'], 'every history of definitions with rejected duplicate or missing names and allocation failure at any subset of allocations', 'No test fails an allocation or looks at the mapping after a rejected definition.', LX, [('order of checks and insertions', INC+'Lexicon.h define()')], observe=['lookups both ways after a failure'])

prop('X03', 'A streamed hash does not depend on how the stream was delivered',
 'A hasher fed a stream in pieces holds, at every point, the FNV-1a hash of exactly the bytes delivered since it was made or cleared, wherever the stream was cut, whether pieces came as text or through a transform (whose results are hashed), and whatever other hashers or copies of it were used for; the pieces may vanish after each call. '
 'Finalising and reading the value change nothing.',
 ['histories', 'inputs'], 'every stream of bytes, every way to cut it, every interleaving of streams', 'No test checks hash values.', [INC+'ext/HashFNV.h', INC+'TextView.h'],
 [('incremental hash', INC+'ext/HashFNV.h'), ('transform view', INC+'TextView.h TransformView')], observe=['hash values'])

prop('V01', 'A small-buffer vector behaves as a vector and balances lifetimes',
 'After any history of push, emplace, pop, element access, reserve, iteration and moving, a small-buffer vector holds exactly the sequence a standard vector would, across the boundary between inline and heap storage. '
 'Each element constructed is destroyed exactly once and never used outside its lifetime, no storage is leaked, and this also holds when an element constructor throws or an allocation fails, after which the vector holds exactly the elements it held before; a vector that was moved from is empty.',
 ['histories', 'fault_sequences'], 'every operation history across the inline/heap boundary with throwing element operations and failing allocations', 'Tests push a few strings and never pop, fail or throw.', [INC+'Vectray.h'],
 [('store variant and transfer', INC+'Vectray.h')], observe=['contents, element ledger, allocator ledger'])

ER = [INC+'Errata.h', SRC+'Errata.cc', SRC+'MemArena.cc']
prop('E01', 'An error report keeps all annotations, in order, with the right severity',
 'An error report holds exactly the annotations noted on it and not filtered by severity, in order, each with the text, severity and nesting level it was noted with, and its own copy of the text; annotations noted from another report are copied after its own. '
 'The report\'s severity is the highest it was given, filtered annotations included; its code is the last one assigned; it is ok exactly when that severity is below the failure threshold; moving transfers everything and leaves the source empty, and a value-carrying result keeps value and report together.',
 ['histories', 'inputs'], 'every history of note, assign, move, clear and merge over several reports and results, every severity configuration', 'Tests note a few literals on one report.', ER, [('annotation list in an owned arena', SRC+'Errata.cc'), ('severity update and filter', INC+'Errata.h')], observe=['iteration, severity, code, is_ok, rendered text'])

prop('E02', 'An abandoned error report reaches every sink exactly once',
 'When a report that holds annotations is destroyed without having been cleared, sunk or moved away, every sink registered at that moment is given that report exactly once, complete and in registration order. '
 'Cleared, empty and moved-from reports are never given to a sink, whatever chain of moves, assignments and results the report went through.',
 ['histories'], 'every history of creation, moves, merges, clears and destruction of many reports with sinks registered at any time', 'One test registers one sink and drops one report.', ER, [('destructor and reset', SRC+'Errata.cc'), ('sink list', INC+'Errata.h')], observe=['sink invocations and their content'])

prop('E03', 'Error reporting survives memory exhaustion',
 'If memory runs out while an error report is created, annotated, merged or rendered, the failure is reported as the standard out-of-memory exception, annotations already present stay intact and in order, no annotation is half present, and nothing is leaked or released twice.',
 ['fault_sequences', 'histories'], 'every history of reporting operations with allocation failure at any subset of allocations', 'No test fails an allocation.', ER, [('arena creation and annotation', SRC+'Errata.cc')], observe=['annotations and allocator ledger after each failure'])

BW = [INC+'BufferWriter.h', INC+'bwf_base.h', SRC+'bw_format.cc', SRC+'ArenaWriter.cc', INC+'ArenaWriter.h']
prop('W01', 'Output beyond capacity is dropped, counted, and never written',
 'Whatever is written to a fixed-size writer, its content is exactly the leading part of the output that an unlimited writer would hold that fits in its capacity, its extent is the full length of that output, and the error state is set exactly when they differ. '
 'No byte outside the given buffer is ever written, also under restrict, restore, discard, commit, clear and copy operations.',
 ['inputs', 'histories', 'fault_sequences'], 'every sequence of writer operations and every capacity, so that space runs out at every possible byte of every operation', 'Tests overflow a few buffers at a few fixed points.', BW, [('capacity checks', INC+'BufferWriter.h FixedBufferWriter')], observe=['view, extent, error flag, guard bytes around the buffer'])

prop('W02', 'Growing outputs hold the same text whatever room they started with',
 'Printing to a string, appending to a string, printing to an arena-backed writer and printing to a large enough fixed buffer all produce the same text for the same format and arguments, whatever capacity the destination started with and however often it had to grow, without disturbing what an appended-to destination held before. '
 'If growing fails for lack of memory the failure is reported, nothing is leaked, and previous arena contents are intact.',
 ['inputs', 'histories', 'fault_sequences'], 'every format and argument list, every starting capacity and every allocation failure point', 'Tests print short texts to a few starting sizes.', BW, [('retry after sizing', INC+'bwf_base.h bwprint_v(), bwappend'), ('growth', SRC+'ArenaWriter.cc')], observe=['resulting text'])

prop('W03', 'Formatted fields are laid out by their specifier at any capacity',
 'Each formatted field has the rendered value placed by its specifier: padded to at least the minimum width with the fill character on the side the alignment says, cut to at most the maximum width, with literal text and escaped braces copied unchanged and arguments selected by index or name. '
 'The layout does not depend on the remaining capacity or on what was written before: a writer that is too small holds the leading part of the same text, and a bad format or missing name or argument never corrupts it. All this also holds for fields given by a caller\'s own format extractor, which is passed exactly the arguments it captures.',
 ['inputs', 'fault_sequences'], 'every format string, argument list, nesting of specifiers, and capacity at which space runs out inside a field', 'Tests render fixed formats in buffers with room to spare.', BW, [('field layout', SRC+'bw_format.cc Adjust_Alignment'), ('format parsing', SRC+'bw_format.cc Format::TextViewExtractor'), ('print loop', INC+'bwf_base.h print_nfv')], observe=['rendered text and extent against a reference renderer'])

prop('W04', 'Rendered times and error codes show the captured moment',
 'A date value renders the time it was created with (the clock at creation if none was given), in the requested zone and layout, and an error-number value renders the error number captured at its creation with its name and text, however the clock, time zone rules or current error number change before rendering. '
 'Rendering never disturbs the current error number\'s captured value and is independent of the writer\'s capacity except for truncation.',
 ['histories', 'inputs', 'fault_sequences'], 'every clock value including jumps between creation and rendering, every error number, every capacity', 'Tests render one date and a few error numbers with the real clock.', [SRC+'bw_format.cc', INC+'bwf_ex.h', INC+'bwf_std.h'], [('capture at construction', INC+'bwf_ex.h bwf::Date, bwf::Errno'), ('rendering', SRC+'bw_format.cc')], observe=['rendered text against the simulated clock'])

prop('W05', 'A name always renders the generator last assigned to it',
 'After any history of assigning generators in any number of name tables (external, or bound to a caller\'s context), a format field of a name renders exactly what the generator last assigned to that name in the table used writes (given the context bound for that call), an unknown name renders the invalid-name text, and nothing else is affected. '
 'The table owns its names: later changes to the text a name was assigned from do not matter. An assignment that fails for lack of memory leaves every name rendering what it did before.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of assignments over every set of names, every nesting of generators, every allocation failure', 'Tests assign a few literal names once.', [INC+'bwf_base.h', SRC+'bw_format.cc'],
 [('name table', INC+'bwf_base.h NameMap, ExternalNames, ContextNames')], observe=['rendered text, contains()'])

prop('T01', 'Concurrent readers of a shared object are race free and agree',
 'Any number of threads may use the constant operations of one shared, no longer modified object (IP space, range set, lexicon, hash map, list, error report, parsed format, arena queries) at the same time: under every interleaving there is no data race, and every thread sees the same answers a single thread would.',
 ['schedules', 'histories'], 'every interleaving of reader threads over every object built by any history', 'All tests are single threaded.', [INC+'IPRange.h', INC+'DiscreteRange.h', INC+'Lexicon.h', INC+'IntrusiveHashMap.h', INC+'Errata.h', INC+'bwf_base.h', SRC+'RBTree.cc', SRC+'bw_format.cc'],
 [('constant operations do not modify shared state', 'lookup paths of all containers')], observe=['memory accesses of each thread (compiler instrumentation), results'])

prop('T02', 'Separate objects used by separate threads never affect each other',
 'Threads that each use only their own objects (arenas, spaces, maps, lexicons, reports, writers, views, file paths) need no synchronisation: under every interleaving, including of the first use of any shared lazily created facility, there is no data race and each thread gets the result it would get alone.',
 ['schedules', 'histories'], 'every interleaving of threads running independent histories, starting from a cold process', 'All tests are single threaded.', [SRC+'bw_format.cc', SRC+'bw_ip_format.cc', SRC+'Errata.cc', SRC+'MemArena.cc', SRC+'TextView.cc', SRC+'swoc_ip.cc', INC+'MemArena.h', INC+'Lexicon.h'],
 [('no hidden shared mutable state', 'static data in the library sources')], observe=['memory accesses of each thread, results'])

# Pure functions: listed, not claimed (see DESIGN.md / MANIFEST not_applicable)
TX = [SRC+'swoc_ip.cc', SRC+'bw_ip_format.cc', INC+'IPAddr.h', INC+'IPRange.h', INC+'IPEndpoint.h', INC+'IPSrv.h']
prop('P01', 'Address data written as text survives storage, failure and reload',
 'Every address, range, network, endpoint and service is read back with an equal value from every text the library renders for it and every documented way to write it, in an object that was used for other values before. '
 'When the text comes from storage that was torn or damaged, a text is accepted only if it is a valid form, with the value it means, and after a text that is not accepted the object holds no value from it or from before; only the text itself decides, not what surrounds it in memory. '
 'Loading and saving that report success are complete whatever calls failed, addresses order strictly (IPv4 before IPv6), and conversion to and from socket addresses preserves value, port and family.',
 ['inputs', 'fault_sequences', 'histories'], 'every value of either family, every written form, every damage in storage, every history of reuse', 'Tests try a few dozen literals, each in a fresh object, and no damaged text.', TX + [SRC+'swoc_file.cc'],
 [('parsers', SRC+'swoc_ip.cc'), ('renderers', SRC+'bw_ip_format.cc'), ('address order', SRC+'swoc_ip.cc IPAddr::operator<')], observe=['values, return codes, rendered text'])

prop('P02', 'Networks exported from an address set are minimal and cover exactly that set',
 'However an address set came about, every way of listing it as networks yields for each of its ranges the unique shortest list of disjoint aligned networks, in order, covering exactly its addresses; when that list reaches another party through storage or messages - repeated, in any order - the set rebuilt from what arrived has exactly the addresses of those networks, and all of them if all arrived. '
 'Along any history of changes, masks, addresses and networks agree with exact arithmetic on the address bits (width, continuity, base and last address, containment, order), and ranges with exact set operations on addresses (union, intersection, difference at either side, adjacency, relationship, clipping).',
 ['inputs', 'histories', 'fault_sequences'], 'every set of ranges of either family, every delivery and damage, every operation history', 'Tests list a dozen fixed ranges and masks.', [SRC+'swoc_ip.cc', INC+'IPRange.h', INC+'IPAddr.h', INC+'DiscreteRange.h', SRC+'bw_ip_format.cc'],
 [('network sources', INC+'IPRange.h NetSource'), ('masks', SRC+'swoc_ip.cc IPMask'), ('range algebra', INC+'DiscreteRange.h')], observe=['networks yielded, membership of the rebuilt set, values of each operation'])

prop('P03', 'Text delivered in pieces is taken apart into exactly the pieces it contains',
 'However a stream of text records is cut into chunks and however often connections break, records taken apart with views come out exactly as they were sent, once each and in order, with any of the ways to split, take, clip or trim, and nothing is read outside the memory viewed. '
 'Along any history of operations each view is exactly the documented part of the text (what was removed, what is left, where the selected character is discarded); numbers are read with the value and the length of the longest valid prefix, clamped on overflow and with nothing marked as parsed if there is none; '
 'comparisons and the ordering functors are strict orders on the content with a prefix first, with or without case, and agree with equality and hashing; output and transformed views yield the viewed characters.',
 ['inputs', 'histories', 'fault_sequences'], 'every text, chunking, loss of connections and operation history', 'Tests use a few literals, never in memory of exactly their size.', [INC+'TextView.h', SRC+'TextView.cc', INC+'string_view_util.h', SRC+'string_view_util.cc', INC+'MemArena.h'],
 [('view arithmetic', INC+'TextView.h'), ('number parsing', SRC+'TextView.cc'), ('ordering', SRC+'string_view_util.cc')], observe=['position and size of each view, records delivered, numbers, order, output'])

prop('P04', 'Memory spans describe exactly their memory',
 'Along any history of slicing, clipping, assigning, aligning, converting and rebinding, on memory of any size and alignment, each span is exactly the documented part of the memory, a change of the element type that does not fit the size is rejected, '
 'aligned spans are aligned at the cost of the fewest bytes, and copying, filling and comparing touch and compare exactly the bytes of the spans. Records packed into aligned memory and sent through connections that truncate, damage or lose bytes are never taken apart beyond the bytes that arrived, and arrive unchanged once the connection is sound.',
 ['inputs', 'histories', 'fault_sequences'], 'every memory size, alignment, element type, history and damage', 'Tests use a few arrays.', [INC+'MemSpan.h', INC+'MemArena.h'], [('span arithmetic', INC+'MemSpan.h')], observe=['address and size of each span, content of the memory, objects alive, records delivered'])
prop('P05', 'Scaled quantities keep their value, and round only as asked',
 'Along any history of assignments, sums, differences, products, counting and rounding among scalars of different scales and counter types, each scalar is worth exactly what arithmetic on the values says, lossy conversions round in the direction asked for (also for negative values and into wider counters), all comparisons agree with the order of the values, and printing shows the value. '
 'A pool of storage that is requested in bytes, granted in blocks and held on disks of yet another unit never loses or invents storage, though messages are lost, duplicated and reordered and the server is rebuilt from printed quantities after crashes.',
 ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'every pair of scales, counter types, values, history and message faults', 'Tests use a few scales and small positive values.', [INC+'Scalar.h'], [('ratio arithmetic', INC+'Scalar.h')], observe=['count and value of each scalar, order, printed text, blocks granted and free'])


prop('X04', 'A scoped change of a variable is undone however the scope is left',
 'A variable changed for the duration of a scope has the changed value inside the scope and exactly the value it had before once the scope ends, to any depth of nesting, '
 'whether the scopes end by returning or by an exception, whichever copy, move or allocation failed on the way in; no value is lost, duplicated or destroyed twice.',
 ['fault_sequences', 'histories', 'inputs'], 'every nesting, every exit, every point at which copying or allocation can fail', 'Tests use a single scope of an integer and a string, without failures.', [INC+'swoc_meta.h'], [('scoped change', INC+'swoc_meta.h let')], observe=['value of each variable at each level, live objects'])

with open(OUT, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
