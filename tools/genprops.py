#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that statements stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
PR='src/types/profile.rs'; IO='src/io/io_handler.rs'; FF='src/io/file_file.rs'; FM='src/io/file_mem.rs'; FN='src/io/file_null.rs'; CX='src/state/context.rs'; HD='src/types/icc_header.rs'; TE='src/types/tag_entry.rs'
opn=('Profile::open_from_file / open_from_file_thr / read_header_thr',PR)
glob=('process-wide context behind a mutex',CX)
p('C01','Opening an intact profile reports exactly what is stored',
  "Opening a well-formed profile for reading succeeds and reports exactly what the file stores: every header field a profile keeps, creation date, profile ID, and the tag directory in stored order with each signature, offset and size; an entry that shares its extent with an earlier entry is linked to such an earlier entry and no other entry is linked. This holds however the operating system splits, interrupts or delays the reads, and whatever the wall clock or time zone say. Two opens compare equal exactly when what they report is equal, and asking for a tag at or beyond the tag count gives the blank signature.",
  ['inputs','fault_sequences'],'every well-formed profile image x every sequence of short reads, interruptions, latencies, clock jumps and time zones during the open',
  'The two profile tests open one sRGB file from a local disk that always answers whole reads; other field values, directory shapes (0, 100 tags, shared extents, extents ending exactly at end of file) and partial reads are never seen.',
  [PR,HD,TE,FF,IO],[opn,('big-endian header and directory decoding',HD+', '+TE),('exact reads through the stream layer',FF)],['returned profile: accessors, equality, debug rendering'])
p('C02','Damaged storage is refused or decoded by the rules, never a crash',
  "For any stored bytes (flipped bits, truncation, torn or substituted blocks, garbage, contents changing while they are read) an open for reading returns, without panicking, aborting or hanging, either an error or the profile those bytes encode. A wrong magic number, a creation date or time that does not exist, more than 100 directory entries, or bytes ending before the directory does must fail. A directory entry whose extent overflows or ends beyond the smaller of declared and actual file size is left out, and all other entries are kept in order; nothing else makes the open fail.",
  ['inputs','fault_sequences'],'every byte content of the file, including changes made to it between any two storage calls of the open',
  'No test opens a damaged, truncated or hostile file; the bounds checks, the count limit and the date conversion have never run on bad input.',
  [PR,HD,TE,'src/types/date_time_number.rs'],[opn,('extent and count checks',PR),('calendar conversion','src/types/date_time_number.rs')],['open result','returned profile'])
p('C03','Storage errors during an open surface as that error',
  "If any storage call made for an open (open, read, seek, size query) fails with anything other than an interruption, the open fails, yields no profile and reports that error's kind. An interruption alone never makes an open fail. No storage error is swallowed, replaced by another kind, or turned into a partially filled profile.",
  ['fault_sequences','inputs'],'every placement of failing storage calls (first, last, mid-directory, size query) and every error code, over all profile images',
  'The tests run on a healthy disk: no storage call ever fails in them.',
  [PR,IO,FF],[opn,('error propagation through the stream layer',IO)],['open result: Err kind'])
p('C04','A failed open leaves nothing behind that breaks later opens',
  "After any history of opens that failed (damaged or missing files, storage errors, refused creation, descriptor exhaustion) on any threads and through the process-wide or private contexts, opening an intact profile through any context succeeds with its exact content within a bounded number of steps once the faults stop. No failure leaves a lock held or poisoned, descriptors leaked until the limit is hit, or stale data that shows up in a later result.",
  ['histories','fault_sequences','schedules'],'every history of failing and succeeding opens over several threads and contexts, followed by fault-free opens',
  'The tests never fail an open and never use the process-wide context at all.',
  [PR,CX],[glob,('single context shared by all non-context opens',CX)],['results of opens after the faults stop'],
  [('process-wide context','shared by every open without explicit context',CX)])
p('C05','File handles are conserved',
  "Every file handle the library opens is released exactly once: by the time a failing open returns, by the time a profile is dropped, or when a stream is closed, whether or not that close reports an error. A successful open holds exactly one handle, on the file it was asked for, for as long as the profile lives. The library never releases or uses a handle it does not own.",
  ['histories','fault_sequences'],'every history of opens, drops and closes on several threads with failures at every storage call',
  'Tests do not look at descriptors, and leaks are invisible in short-lived test processes.',
  [PR,FF,IO],[('ownership of the stream by the profile',PR),('close consumes the stream',FF)],['set of open descriptors of the process'])
p('C06','Concurrent opens give the serial results',
  "Any number of threads opening profiles at the same time, through the process-wide context or each through its own, each get exactly the result they would have got alone: the profile the file encodes, or the error its own file or storage caused. No interleaving, lock contention, first-use race or spurious wake-up makes an open panic, deadlock, return another thread's data, or never finish.",
  ['schedules','fault_sequences'],'every interleaving of 2 to 4 threads of opens with storage faults, at memory-access granularity inside the library',
  'No test opens a profile from more than one thread, and none uses the process-wide context; a test would see one OS schedule.',
  [PR,CX],[glob,('lazy initialisation of the process-wide context',CX)],['results per thread','completion of all threads'],
  [('process-wide context lock','serialises opens without explicit context',CX)])
p('C07','Refusals are reported once, to the right context only',
  "A profile refused for its contents, and a plugin chain refused because any of its plugins has a wrong magic, needs a newer library or has an unknown type, is reported exactly once, to the error handler of the context the call was given (the process-wide one if none), with the category of the defect (bad signature, range, corruption, unknown extension), and that context stays usable with its user data unchanged. Successful opens and acceptable plugin chains report nothing, storage failures are reported at most once, and no other context, a clone included, sees any report. This holds for any history of calls over several contexts and threads.",
  ['histories','schedules','fault_sequences'],'every history of opens and plugin registrations over several contexts, clones and threads, with damaged files and storage errors',
  'No test installs an error handler, registers a plugin or uses two contexts.',
  [CX,PR,'src/state/chunks/error_handler.rs'],[('per-context error handler',CX),('error signalling in the open path',PR)],['calls received by error handlers','results'],
  [('error handler of a context','where refusals are reported','src/state/chunks/error_handler.rs')],
  'setter for the error handler of a context (none is public): --cfg lcms2_dst')
p('C08','Opening touches storage only as the mode allows',
  "Opening for reading never creates, truncates, writes or needs write permission to any file, whether it succeeds or fails. Opening for writing creates or empties exactly the named file and yields a write-mode profile without tags; it fails, with that error, exactly if the file cannot be created, and then changes nothing. No open changes any other file.",
  ['histories','fault_sequences','configurations'],'every history of read and write opens over existing, missing, read-only, forbidden and directory paths on failing or full disks',
  'The tests only open one existing file for reading and never compare storage before and after.',
  [PR],[('access mode handling',PR)],['file system contents before and after','open result'])
p('C09','Data acknowledged by closing a disk stream survives a crash',
  "If closing a disk stream reports success, every byte successfully written through it before is on stable storage: after a crash at any later instant the file holds those bytes unless they were overwritten since. If the data could not be made durable, closing reports an error. After a crash at any instant, bytes of the file that no unacknowledged write covered are unchanged.",
  ['crash_points','fault_sequences','histories'],'every crash instant over histories of writes and closes of several files, with failing, interrupted and short writes and failing syncs',
  'Tests read back through the page cache of a machine that never crashes; dropping the sync or its error is invisible to them.',
  [FF,IO],[('close syncs before dropping',FF)],['file contents after simulated crash and restart','result of close'])
p('C10','A disk stream behaves as an array of bytes with a position',
  "Reading, writing, seeking, position and size queries and all typed accesses on a disk stream agree with a plain byte array and a position, for any history of operations on any number of streams over the same files, however the operating system splits or interrupts the transfers. An operation that hits a real storage error returns that error; it may have transferred a leading part of its own bytes but changes no other byte, and the stream works on correctly afterwards. Reads past the end and seeks before the start fail, the latter without moving the position.",
  ['histories','fault_sequences'],'every history of stream operations with short transfers, interruptions, errors and full disks at any storage call',
  'The tests do single whole-buffer transfers of at most 8 bytes on a healthy local file; partial transfers never happen in them.',
  [FF,IO],[('exact reads and complete writes',FF),('typed accesses',IO)],['values returned','position and size','file contents'])
p('C11','Typed accesses are exact and error-transparent on any stream',
  "On any stream implementation, typed reads and writes (8/16/32/64-bit integers, floats, 16-bit arrays, fixed-point and XYZ values) transfer exactly the big-endian bytes of the value and nothing more; what is written reads back as the same value (fixed-point rounded to the nearest 1/65536, halves upwards, and limited to the range). If the stream fails at any point the access returns that very error, transfers nothing after it, and never invents a value. A size query returns the stream's length and, when it succeeds, leaves the position unchanged; if any step it needs fails it reports failure.",
  ['inputs','fault_sequences','histories'],'every value of every type x every failing point of a user-supplied stream x every history of accesses',
  'The doc examples run one value per type on a memory buffer that never fails.',
  [IO,'src/io/big_endian.rs'],[('default methods of the stream trait',IO)],['values, errors and bytes seen by the underlying stream'])
p('C12','A memory stream behaves as the buffer it wraps, also when full',
  "Any history of operations on a memory stream, growable or fixed, gives the values, positions, sizes and refusals that the same history gives on a file with that content. A write reported successful is entirely in the wrapped buffer at once and for good; when a fixed buffer is full a write that does not fit fails, and then bytes outside the range it addressed are untouched. Closing or dropping the stream at any point never loses or alters written data. (Where a read that fails at the end of data leaves the position is not specified; what follows is judged from there.)",
  ['histories','fault_sequences'],'every history of operations over growable, borrowed, boxed and fixed buffers, running into end of data and full device at any point',
  'The doc examples do one or two accesses well inside a small buffer; end of data and full buffers are not tried.',
  [FM,IO],[('cursor over the wrapped buffer',FM)],['values, positions, sizes, errors','wrapped buffer'])
p('C13','The null stream tracks position and size like a file and reads zeros',
  "For any history of operations that a real file would accept, the null stream reports the same positions and sizes as the file. Every read succeeds, advances the position and fills the caller's buffer with zeros, whatever was written before and whatever the buffer held. Seeking before the start is refused without moving the position, and no operation ever panics.",
  ['histories','inputs'],'every history of reads, writes, seeks from start, current and end (forwards and backwards), typed accesses and size queries',
  'One doc example writes five bytes, seeks to 0 and reads four.',
  [FN,IO],[('position and high-water mark',FN)],['positions, sizes, values'],
  [('position and used space','stand-in for a file position and length',FN)])
p('C14','Creation times come from the right clock',
  "A profile that is created (in memory or by opening for writing) carries a UTC creation time that the system clock showed during the call; a profile opened for reading carries the time stored in its file. This holds for every clock value the system can show, across forward and backward jumps at any instant of the call, and for every time zone.",
  ['fault_sequences','configurations','inputs'],'every clock reading from 1970 to 2232, every jump placed at any storage call, every time zone setting',
  'The tests only check one stored date; new profiles and other clock or zone settings are never looked at.',
  [PR,'src/types/date_time_number.rs'],[('creation time of a new profile',PR),('header date decoding',PR)],['creation time of the profile'])
p('C15','Opening costs a bounded amount of work and memory',
  "Whatever a file claims about itself and however large it is, opening it for reading performs a bounded number of storage calls, reads a bounded number of bytes near its start, and uses a bounded amount of memory, independent of the file's real and declared size. Once its result is dropped that memory is given back, so that opening files over and over does not use ever more. On a slow storage device that delivers as little as one byte at a time, with interruptions, the open still completes within a number of steps bounded by the bytes needed.",
  ['inputs','fault_sequences'],'every file content and real size up to 2^62 bytes, every declared size and tag count, every slow or interrupting device',
  'The only test file is 60 kB and honest; nothing measures calls, bytes or memory.',
  [PR,IO],[('fixed-size header and directory reads, count limit',PR)],['storage calls, bytes and heap used by one open'])
p('C16','An open sees one version of a file, and the current one',
  "If the profile file is atomically replaced or removed at any instant, an open for reading yields exactly the content of one version that was current at some moment during the call (or reports the file missing), never a mixture; the stream the profile keeps is on that same version. An open that starts after a replacement has finished sees the new version, however often, by whatever path (links included) and from whichever thread or context the file was opened before.",
  ['schedules','histories'],'every placement of replacements and removals between storage calls of opens on several threads, and every history of re-opens of one path',
  'No test replaces a file or opens the same path twice.',
  [PR],[('one handle is used for the whole open; nothing is cached',PR)],['returned profiles against the version history'])
p('C17','A stalled open does not hold up opens through other contexts',
  "While any number of opens are stalled indefinitely by their storage, every open through a context that none of the stalled calls was given (private contexts in particular, also while the process-wide one is busy) completes. Once the storage answers again every stalled or waiting open completes too, each with its exact result.",
  ['schedules','fault_sequences'],'every choice of stalled storage calls and interleaving of threads opening through private and process-wide contexts',
  'Stalls cannot be produced on a local test file, and no test has two contexts active at once.',
  [PR,CX],[('only context-less opens take the process-wide lock',PR),glob],['completion of each thread while others are stalled, and after'])
p('C18','Parametric curves: forward and reverse evaluation agree',
  "For every built-in parametric curve type and parameters where the curve is invertible, evaluating the reverse type on the forward result gives back the argument up to rounding.",
  ['inputs'],'every curve type, parameter vector and argument','No test evaluates a curve.',
  ['src/plugins/para_curve.rs'],[('default evaluator','src/plugins/para_curve.rs')],['evaluator result'])
p('C19','Signatures convert without loss',
  "Every four-character signature converts to and from its number, bytes and text without loss; shorter text is padded with spaces and longer text cut to four characters.",
  ['inputs'],'every 32-bit value and every byte string','Tests cover one or two examples per conversion.',
  ['src/types/signature.rs'],[('conversions','src/types/signature.rs')],['conversion results'])
p('C20','The little-endian build is self-consistent',
  "With the little-endian build option every multi-byte value is read and written least significant byte first by every part of the library (typed accesses of all streams, profile header, tag directory, exported conversion helpers), and nothing else changes: every other guarantee on opens, streams and contexts holds as in the default build.",
  ['inputs','fault_sequences','schedules'],'the little-endian configuration: every value, image, history, fault and schedule','The option is never built in CI and two profile tests fail under it.',
  ['src/io.rs','src/io/little_endian.rs'],[('re-export switch','src/io.rs')],['bytes transferred'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
