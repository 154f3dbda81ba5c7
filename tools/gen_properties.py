#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the anchors stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
p('C01','A byte pair is a faithful value: order, equality, hash, text and binary agree',
  'For all pairs of bytes (including NUL, quotes, backslashes and bytes >= 0x80): equality holds exactly when both bytes are equal, the order is a strict total order consistent with equality, and equal pairs hash equally. Writing a pair in binary and reading it back gives the same pair, and reading fails exactly when fewer than two bytes are left. The printable form is pure printable ASCII and, read as escape sequences (backslash-zero-octal of the unsigned byte value, escaped quote and backslash), determines each byte.',
  ['inputs'],'every pair and triple of the 65,536 byte pairs, every stream position',
  'The two Bigram unit tests compare a handful of literal ASCII pairs; nothing covers non-ASCII bytes, transitivity, streams that end mid-record or the printable form.',
  ['bench/Bigram.h','bench/Bigram.cpp'],[('comparison operators','bench/Bigram.cpp operator==, operator<'),('escape','bench/Bigram.cpp toPrintableString'),('binary form','bench/Bigram.cpp binarySerialize/binaryDeserialize')],
  observe=['Bigram public methods','std::hash<Bigram>'])
p('C02','wdt_gen_stats reports exactly the adjacent byte pairs of its input',
  'For every input on standard input, the reported table contains each adjacent byte pair that occurs, exactly once, with its exact number of occurrences and nothing else; with -wrap the pair (last byte, first byte) of a non-empty input is counted as well. Entries are sorted by descending count and then ascending pair. The text form and the binary form (two bytes plus 4-byte little-endian count per entry) describe the same table.',
  ['inputs'],'all inputs (any bytes, any length including 0 and 1, however the pipe delivers them) and both flags',
  'No test runs wdt_gen_stats at all.',
  ['bench/wdtStats.cpp','bench/Bigram.cpp'],[('pair loop','bench/wdtStats.cpp main'),('sort and print','bench/wdtStats.cpp operator<<')],observe=['stdout of wdt_gen_stats'])
p('C03','wdt_gen_files writes one file of exactly the requested size, reproducibly',
  'For every size, thread count and block size the tool accepts, it exits 0 and the named file in the named directory has exactly floor(requested bytes / threads) x threads bytes, all of them written (no holes, no stale bytes from an earlier larger file), and nothing else in the directory changes. Without -seed_with_time two runs with the same flags and statistics give identical bytes, whether the statistics come from a file or from standard input and regardless of thread scheduling. Statistics that end in the middle of an entry contribute only their complete entries.',
  ['inputs','configurations','schedules'],'all accepted (size, threads, block size, statistics, start string) combinations and all thread schedules',
  'The unit tests exercise an in-memory sentence generator with one fixed model; no test runs the tool, its block splitting or its threads.',
  ['bench/wdtGenFiles.cpp'],[('per-thread block loop','bench/wdtGenFiles.cpp main'),('generateInitial/generate length accounting','bench/wdtGenFiles.cpp SentenceGen')],observe=['the generated file'])
p('C04','Generated data follows the statistical model it was given',
  'In every thread segment each byte after the start string follows its predecessor according to the model: the pair is one with non-zero weight in the statistics, or the predecessor has no successor in the model and the chain was restarted (from the reset character if one is given and usable). Every segment begins with the -start string when one is given. Successors are drawn in proportion to their weights: over long outputs the observed frequencies of each successor match the weights within statistical tolerance, and no successor with substantial weight is never chosen.',
  ['inputs','configurations'],'all models (any bytes, weights, dead ends), start strings, reset characters, block layouts',
  'The four unit tests check one model with one seed and only that output has a given length.',
  ['bench/wdtGenFiles.cpp'],[('weighted tables','bench/wdtGenFiles.cpp ProbabilityTable'),('chain','bench/wdtGenFiles.cpp SentenceGen::next/generate')],observe=['the generated file'])
p('C05','Integer and string encodings round-trip and stay inside their buffer',
  'Every 64-bit value (signed or unsigned), non-negative fixed-width integer and string is decoded back to the same value from what was encoded, with the read position ending exactly at the write position; values that do not fit the narrower decoded type are refused. The encoded form is the documented one (base-128 groups of at most 9 bytes, zig-zag for signed values, little-endian fixed width, length-prefixed strings). Encoding into a buffer that is too small fails without writing beyond it, and decoding truncated bytes fails without reading beyond the given limit.',
  ['inputs'],'all values, all buffer sizes and offsets, all byte strings offered for decoding',
  'ProtocolTest samples a few values; it is not even part of the baseline build.',
  ['util/SerializationUtil.cpp','util/SerializationUtil.h'],[('varint/zigzag','util/SerializationUtil.cpp encodeVarU64C/encodeVarI64C/decodeInt64C'),('strings and fixed ints','util/SerializationUtil.h')],observe=['encode/decode functions'])
p('C06','Every protocol message decodes to exactly what was encoded, at every version',
  'For each kind of protocol message (file header, settings, done, size, checkpoint lists, abort, received-chunks lists, footer, encryption settings) and each supported protocol version, decoding an encoded message yields the same fields that version carries, defaults for those it does not, and consumes exactly the encoded bytes. Encoded sizes never exceed the documented maximum for valid field values. A list of received chunks too long for one buffer is split into consecutive batches that together carry every entry once, in order.',
  ['inputs','configurations'],'all field values, all supported protocol versions, all buffer sizes for batches',
  'ProtocolTest round-trips a few literals at two versions.',
  ['Protocol.cpp','Protocol.h'],[('encode*/decode* pairs','Protocol.cpp'),('version gates','Protocol.h')],observe=['Protocol::encode*/decode*'])
p('C07','Malformed protocol bytes are rejected cleanly by every decoder',
  'For any byte string offered to any message decoder, at any version and any limit, the decoder terminates, never reads outside the bytes it was given, and either reports failure or produces a message that is well formed (position within the limit, string and list lengths backed by actual input bytes). Truncating a valid message never makes decoding yield different content that is reported as success, except fields defined as optional at the end.',
  ['inputs'],'all byte strings, all limits, all protocol versions',
  'No test feeds malformed input to the decoders.',
  ['Protocol.cpp','util/SerializationUtil.cpp'],[('bounded ByteRange reads','util/SerializationUtil.cpp'),('decode functions','Protocol.cpp')],observe=['Protocol::decode*'])
p('C08','Received-range bookkeeping is exact set arithmetic',
  'For any collection of received byte ranges of a file, merging leaves sorted, disjoint, non-adjacent, non-empty-overlapping ranges covering exactly the same bytes, and the total equals the number of distinct bytes. The remaining ranges of a file of any size are exactly the bytes not covered, in ascending order.',
  ['inputs'],'all collections of ranges and file sizes',
  'WdtMiscTests and SenderTest use a few literal intervals.',
  ['Protocol.h','Protocol.cpp'],[('mergeChunks','Protocol.cpp FileChunksInfo'),('getRemainingChunks','Protocol.cpp FileChunksInfo')],observe=['FileChunksInfo public methods'])
p('C09','Directory discovery selects exactly the files the filters describe',
  'For any source directory tree and any include, exclude and directory-prune patterns, the sender enumerates exactly the regular files whose relative path matches the include pattern (if any), does not match the exclude pattern (if any) and lies under no directory matching the prune pattern, each once, with its relative path and actual size. With symbolic-link following enabled, linked files and directories inside the tree are included under their link path, the directory a link leads to is not entered a second time through another link or by its own path (so cycles end); disabled, links contribute nothing. Unreadable directories are reported as failed and the rest is still enumerated.',
  ['inputs','configurations'],'all directory trees (nesting, odd names, empty files, links) and filter combinations',
  'Shell tests use one small tree; the baseline tests never run discovery.',
  ['util/DirectorySourceQueue.cpp','util/DirectorySourceQueue.h'],[('explore','util/DirectorySourceQueue.cpp'),('resolvePath','util/DirectorySourceQueue.cpp')],observe=['sources dequeued from the queue','getCount/getTotalSize'])
p('C10','The work queue hands out every byte of every file exactly once',
  'For any set of files, block size and received-chunk history from an earlier run, the sources handed out (across any number of consumers, with any of them returned for retry) cover each byte that still has to be sent exactly once and no byte already received, every block lies within its file, and empty files are handed out once. Blocks never exceed the block size when splitting is enabled, larger sources are handed out before smaller ones once discovery has finished, and the queue reports finished exactly when nothing is left. Files the receiver has but the sender does not are listed for deletion only when deletion is requested.',
  ['inputs','histories','schedules'],'all file sets, block sizes, resumption histories and sequences of take/return operations',
  'WdtMiscTests has a couple of literal queues.',
  ['util/DirectorySourceQueue.cpp'],[('createIntoQueueInternal','util/DirectorySourceQueue.cpp'),('getNextSource/returnToQueue','util/DirectorySourceQueue.cpp'),('setPreviouslyReceivedChunks','util/DirectorySourceQueue.cpp')],observe=['sources dequeued','getTotalSize','getPreviouslySentBytes'])
p('C11','Checkpoint accounting never loses or double-counts a block',
  'After any sequence of blocks sent on a connection, acknowledgements, receiver checkpoints (possibly with a partially received block) and connection failures, each block is at any time in exactly one state: acknowledged, or unacknowledged, or returned for retransmission with only its unreceived suffix. A checkpoint that contradicts what was sent (more blocks than were sent, fewer than acknowledged before, an impossible partial byte count) is rejected as an invalid checkpoint and changes nothing; partial progress reported for a block other than the first unacknowledged one is ignored, so that block is resent whole. Once a final (global) checkpoint has been applied to a connection, later blocks are refused and go back to the queue.',
  ['histories','inputs'],'all interleavings of send, ack and checkpoint with all checkpoint values',
  'SenderTest runs a few scripted histories.',
  ['util/ThreadTransferHistory.cpp'],[('setCheckpointAndReturnToQueue','util/ThreadTransferHistory.cpp'),('markSourceAsFailed / acknowledge','util/ThreadTransferHistory.cpp')],observe=['return values, queue contents, popAckedSourceStats'])
p('C12','The transfer log restores exactly what was durably received',
  'Whatever sequence of file creations, resizes, block writes and invalidations is logged across any number of sessions, reading the log back yields for each still valid file exactly the union of its logged blocks with its latest size and sequence id. If the log is cut at any byte (a crash), reading it back yields the state after some prefix of the logged entries, the log stays usable, and subsequent sessions append to that state. Compaction and repeated parsing do not change the restored state.',
  ['histories','crash_points'],'all logged histories over several sessions and all truncation points',
  'Shell tests kill one receiver at one point; truncation inside an entry is not exercised.',
  ['util/TransferLogManager.cpp'],[('entry encode/decode','util/TransferLogManager.cpp LogEncoderDecoder'),('parse and truncate','util/TransferLogManager.cpp LogParser')],observe=['parseAndMatch result','log file contents'])
p('C13','A transfer log is trusted only for its own transfer; corruption never crashes it',
  'Any bytes in a log file are read without crashing or hanging, and whatever is restored lies within the size the file has on disk. A log whose recovery id or configuration (preallocation, block mode) does not match, which was written for another sender while sender matching is on, or which records that a session found it inconsistent, restores nothing. Logged blocks count as received only as far as the file on disk is actually present with the size recorded.',
  ['inputs','configurations','fault_sequences'],'all log byte strings, corruptions of valid logs and configuration mismatches',
  'Nothing tests corrupted logs.',
  ['util/TransferLogManager.cpp'],[('LogParser::process*','util/TransferLogManager.cpp'),('checkSenderIp, startThread, openLog','util/TransferLogManager.cpp')],observe=['parseAndMatch result','checkSenderIp'])
p('C14','Blocks written in any order or concurrency reproduce exactly the file',
  'For any partition of file contents into blocks and any order or concurrency in which the blocks are opened, written in arbitrary pieces and closed, the destination file ends up with exactly the source size and bytes and no other file changes. An existing longer file is cut to the new size, an existing file is refused when overwriting is disabled, missing parent directories are created, and files marked for deletion are removed. All effects stay under the destination directory for relative names produced by a sender.',
  ['inputs','schedules'],'all block partitions, write sizes, orders, thread interleavings, pre-existing destination states and option settings',
  'FileWriterTest writes one block to one file.',
  ['util/FileCreator.cpp','util/FileWriter.cpp'],[('openForBlocks / openForFirstBlock','util/FileCreator.cpp'),('createDirRecursively','util/FileCreator.cpp'),('write/seek','util/FileWriter.cpp')],observe=['destination directory contents'])
p('C15','A file source delivers exactly the requested byte range',
  'For any file, block offset and length, buffer size and read mode (normal or direct), the pieces delivered concatenate to exactly the bytes of that range, each piece fits in the buffer, and the source reports finished exactly when all were delivered without error. Advancing the offset before opening skips exactly that many bytes, and reopening starts again. A file that shrank or cannot be opened yields an error, never short success.',
  ['inputs','configurations'],'all files, ranges, buffer sizes, read modes, and concurrent shrinkage',
  'FileReaderTest covers one configuration pair.',
  ['util/FileByteSource.cpp'],[('read','util/FileByteSource.cpp'),('alignment handling','util/FileByteSource.cpp')],observe=['pieces returned by read'])
p('C16','A transfer that reports success has copied everything exactly',
  'For every source tree, file list and supported configuration (ports, block size, buffer size, checksum, footer, encryption, protocol versions of the two sides, log-based or tree-based mode, file descriptors opened by the sender, sync options), an undisturbed transfer reports success on both sides and the destination holds exactly the selected files with identical contents. Reported file counts and byte counts equal the actual ones. Peers of different protocol versions interoperate at the lower version.',
  ['inputs','configurations','schedules'],'all source trees, option combinations, protocol version pairs and thread schedules',
  'Shell/Python tests run a dozen configurations, need folly and are not part of the baseline.',
  ['Sender.cpp','SenderThread.cpp','Receiver.cpp','ReceiverThread.cpp','Protocol.cpp','WdtBase.cpp'],[('sender state machine','SenderThread.cpp'),('receiver state machine','ReceiverThread.cpp'),('report','Reporting.cpp')],observe=['destination tree','TransferReport of both sides'])
p('C17','Connection faults and corruption never turn into silent data loss',
  'Whatever connections are dropped, stalled, delayed or corrupted in flight and wherever in the byte stream, if the sender reports success the destination holds exactly the source contents: for altered bytes this is promised where they are protected, that is for file contents under block checksums and for everything under authenticated encryption. Broken or stalled connections which leave at least one connection usable are recovered from: the transfer completes successfully (except that one side cannot know whether its very last message arrived, and altered encrypted streams may fail instead). Both sides always terminate and report a status, and a failed side names an error.',
  ['fault_sequences','schedules','inputs'],'all placements of disconnects, stalls and bit flips in either direction over any connection',
  'Network-fault tests rely on iptables-like tools and timing and explore a few points.',
  ['SenderThread.cpp','ReceiverThread.cpp','util/ThreadTransferHistory.cpp','Reporting.cpp'],[('checkpoints','ReceiverThread.cpp'),('checksum verification','ReceiverThread.cpp processFileCmd'),('reconnect','SenderThread.cpp connect/readLocalCheckPoint')],observe=['destination tree','reports'])
p('C18','An interrupted transfer resumes without resending or losing data',
  'If a transfer with resumption enabled is interrupted at any moment (either side aborted, connections cut) any number of times, and source files are possibly appended to, cut, replaced by shorter ones, added or removed between attempts (a replaced file being shorter than anything the receiver has under its name), a later attempt that reports success leaves the destination identical to the source. Data received before (as recorded in the log, or by the length of files in a directory tree) is not sent again: bytes already received plus bytes sent in the resumed run equal the total. Resumption by log and by directory tree both satisfy this.',
  ['crash_points','histories'],'all interruption points and sequences of attempts, both resumption modes',
  'Two shell scripts kill at a few fixed points.',
  ['Receiver.cpp','util/TransferLogManager.cpp','util/DirectorySourceQueue.cpp','SenderThread.cpp'],[('resumption set-up','Receiver.cpp'),('chunk exchange','SenderThread.cpp readFileChunks'),('log','util/TransferLogManager.cpp')],observe=['destination tree','sender report previously sent bytes'])
p('C19','The encrypted channel is transparent, and authenticated mode detects tampering',
  'For both ciphers and without, any tag interval and key-change interval, and any split of the traffic into reads and writes, the receiving side gets exactly the bytes written, and clean shutdown succeeds on both sides. The bytes on the wire differ from the plaintext whenever encryption is on. With the authenticated cipher any modification, insertion or truncation of the encrypted data, its tags or its key vectors makes the receiving side report an error by the time it finishes, no data is declared verified that differs from what was sent, altered channel settings never yield other data without an error, and a wrong key is never accepted. A socket that may meet unencrypted peers serves each connection correctly, encrypted or not.',
  ['inputs','configurations','fault_sequences'],'all data, chunkings, tag and key-change intervals, all single-byte modifications and cut points',
  'EncryptionTest covers the cipher wrappers with a few strings; the socket layer is untested.',
  ['util/WdtSocket.cpp','util/EncryptionUtils.cpp'],[('tag placement','util/WdtSocket.cpp'),('IV change','util/WdtSocket.cpp checkAndChange*Iv'),('cipher wrappers','util/EncryptionUtils.cpp')],observe=['bytes read, return codes, captured wire bytes'])
p('C20','Connection URLs carry a transfer request losslessly, never leaking the secret',
  'For any transfer request (host names including IPv6 literals, any transfer id, namespace and destination id bytes, any positive ports contiguous or not, encryption type and key, protocol version, intervals, flags) parsing the generated URL yields an equal request. Escaping and unescaping any binary string is the identity, and escaped text uses only the URL-safe alphabet. Any string at all parses to a request or to one carrying an error without crashing, and the loggable form never contains the encryption secret.',
  ['inputs'],'all requests and all strings',
  'WdtUrlTest uses literal URLs.',
  ['WdtTransferRequest.cpp','util/EncryptionUtils.cpp'],[('escape/unescape','WdtTransferRequest.cpp'),('process/generateUrl','WdtTransferRequest.cpp'),('serializePorts','WdtTransferRequest.cpp')],observe=['generated URL text, parsed request'])
p('C21','The throttler enforces its rates and never stalls below them',
  'For any sequence of requests over time, if callers sleep as told, the total granted never exceeds average-rate x elapsed time by more than one request, and with a peak rate never exceeds peak-rate x window + burst limit + two requests within any window. No sleep is requested while usage is within both limits, the sleep requested is no longer than needed to get back to the limit, negative rates mean unlimited, and a changed rate or a fresh first user takes effect from a clean start.',
  ['inputs','histories'],'all rate settings and request/time sequences',
  'ThrottlerTest compares average rates of a few real-time runs.',
  ['Throttler.cpp'],[('calculateSleep','Throttler.cpp'),('averageThrottler','Throttler.cpp')],observe=['calculateSleep with supplied times, getProgress'])
p('C22','Sender and receiver quotas are exact across namespaces',
  'After any sequence of create, release, release-all, stale cleanup, register, deregister and limit changes, a create succeeds exactly when the id is new in its namespace, the namespace exists or may be created, and neither the namespace nor the global limit (0 = unlimited) would be exceeded; otherwise it fails with the matching error and changes nothing. Reported counts equal the live objects, lookups return the object created under that id and nothing after release.',
  ['histories','schedules'],'all operation sequences over namespaces, ids and limits',
  'WdtResourceControllerTest scripts a few sequences.',
  ['WdtResourceController.cpp'],[('quota checks','WdtResourceController.cpp'),('counts','WdtResourceController.cpp')],observe=['error codes, getCounts, getSender/getReceiver'])
p('C23','Counters and histograms summarise exactly what was recorded',
  'For any recorded values, count, sum, average, minimum, non-zero minimum, maximum and standard deviation equal those of the values, every value falls in the bucket whose bounds contain it, and percentiles are monotone and lie between minimum and maximum. Merging several counters or histograms (also into an empty one, or via per-thread copies) gives the same summary as recording everything in one. Performance-statistics reports count every call with its true minimum, maximum and sum, also after merging.',
  ['inputs','schedules'],'all value sequences, scales, offsets, partitions into merged parts and threads',
  'Stats_test checks a few literal sequences and is not part of the baseline build.',
  ['util/Stats.cpp','util/Stats.h','Reporting.cpp'],[('record/merge','util/Stats.cpp'),('calcPercentile','util/Stats.cpp'),('PerfStatReport','Reporting.cpp')],observe=['getters and printed reports'])
p('C24','Transfer reports declare success only when everything was accounted for',
  'Summing per-thread statistics adds every counter and keeps the most significant error. A sender report is successful only if all discovered bytes were effectively sent, no source or directory failed, and at least one thread ended without error; a receiver report only if the number of blocks (and bytes, when known) announced by the sender equals the number received and no encryption error occurred. Conflicting announcements from different threads make the summary an error.',
  ['inputs'],'all combinations of per-thread statistics, failed sources and directories',
  'No unit test covers report aggregation.',
  ['Reporting.cpp','ErrorCodes.cpp'],[('operator+=','Reporting.cpp'),('TransferReport constructors','Reporting.cpp')],observe=['TransferReport::getSummary'])
p('C25','Thread coordination primitives release, elect and count correctly always',
  'Under every schedule: a barrier releases its threads only when all threads still registered have arrived, and always then; of the threads entering a funnel exactly one at a time executes until it reports success, all others wait and proceed afterwards, and failure elects exactly one successor; the run-first and run-last functions execute exactly once per round, by the first and last caller. Registered thread states reported always equal the last state set.',
  ['schedules','histories'],'all interleavings of arriving, leaving, failing and succeeding threads',
  'ThreadsControllerTest relies on a few timed runs.',
  ['util/ThreadsController.cpp','util/ThreadsController.h'],[('Barrier','util/ThreadsController.cpp'),('Funnel','util/ThreadsController.cpp'),('ExecuteOnceFunc','util/ThreadsController.h')],observe=['who returns when, execution counts'])
p('C26','A receiver survives any peer without crashing or escaping its directory',
  'Whatever bytes a peer sends to a listening receiver (arbitrary, or near-valid sessions with hostile field values such as absolute or parent-escaping names, negative sizes, impossible offsets), the receiver process does not crash, does not touch anything outside its destination directory, terminates within its timeouts and reports an error unless a complete valid session took place.',
  ['inputs','fault_sequences'],'all byte streams on any number of connections',
  'wdt_bad_server_test.py tries random garbage only, against the sender.',
  ['ReceiverThread.cpp','Protocol.cpp','util/FileCreator.cpp'],[('command dispatch','ReceiverThread.cpp'),('header validation','ReceiverThread.cpp processFileCmd')],observe=['process survival, file system outside destination, report'])
p('C27','A sender survives any peer and never reports unearned success',
  'Whatever bytes a peer that accepts the connections replies with (arbitrary, or near-valid replies with hostile field values), the sender process does not crash, terminates within its timeouts, does not modify its source directory, and reports success only if every block was acknowledged by a peer that completed the session.',
  ['inputs','fault_sequences'],'all reply byte streams on any number of connections',
  'wdt_bad_server_test.py tries a few hundred random replies.',
  ['SenderThread.cpp','Sender.cpp','Protocol.cpp'],[('reply handling','SenderThread.cpp')],observe=['process survival, report, source tree'])
p('C28','Aborting a transfer stops it promptly with the abort reported',
  'At whatever moment either side is aborted (by call, by an external abort checker, or by timeouts when the peer goes silent), that side stops within a bounded time, its report carries an error rather than success unless everything was already complete, and no thread or socket of the transfer remains afterwards. A version-mismatch abort never overrides an earlier abort and only it can be cleared.',
  ['schedules','fault_sequences'],'all abort moments and both sides, with peers that are live or silent',
  'Error-code shell tests abort at a few fixed delays.',
  ['WdtBase.cpp','util/WdtSocket.cpp','Sender.cpp','Receiver.cpp'],[('abort / getCurAbortCode','WdtBase.cpp'),('abort check in socket io','util/WdtSocket.cpp')],observe=['time to finish, report error code, open descriptors'])
p('C29','Options reach the transfer exactly as the user gave them',
  'Every command-line flag sets its corresponding option to the given value and no other (a given start port also makes ports static), and printing the options shows the values in effect. Choosing an option type changes only the options of that type that the user did not specify. Derived settings follow the options: throttler rates in bytes, buffer size rounded up to a valid aligned size at least as large as a header, resumption mode predicates.',
  ['inputs','configurations'],'all flag values and sets of user-specified options',
  'OptionTypeTest checks one combination.',
  ['WdtOptions.cpp','util/WdtFlags.cpp','util/WdtFlags.cpp.inc','WdtBase.cpp'],[('modifyOptions','WdtOptions.cpp'),('initializeFromFlags','util/WdtFlags.cpp')],observe=['WdtOptions fields, printed options'])
p('C30','The wdt command transfers what it is told and its exit code tells the outcome',
  'Running a receiver and a sender with the printed connection URL copies exactly the selected directory or manifest of files (from a file or standard input, with optional sizes) and both exit 0; a failed transfer exits with a non-zero code naming the error. The URL printed on standard output is complete: it connects with the right ports, transfer id and encryption secret, and secrets appear nowhere in the logs.',
  ['inputs','configurations'],'all manifests, trees, flags',
  'Shell tests cover it with a few invocations that need a folly build.',
  ['wdtCmdLine.cpp','Wdt.cpp'],[('manifest parsing','wdtCmdLine.cpp readManifest'),('main','wdtCmdLine.cpp')],observe=['exit codes, stdout, destination tree, logs'])
p('C31','The Wdt interface holds exactly the places of its running transfers',
  'wdtSend, wdtReceiveStart and wdtReceiveFinish, called in any order and at the same time: a call is refused exactly when its place is held by another transfer (ALREADY_EXISTS; unless it may terminate that one and is not the same transfer) or no place is left (QUOTA_EXCEEDED), and refused calls change nothing. A call that may terminate the running transfer ends it and takes over its place. A place is free again as soon as the call that took it returned, with success or an error (also when the request is invalid or ports are taken); lookups and counts always show the running transfers. Successful calls delivered the source directory.',
  ['histories','schedules'],'all sequences of calls over namespaces, destinations, transfer ids, limits and invalid requests',
  'WdtMiscTests makes two fixed sequences of calls.',
  ['Wdt.cpp','WdtResourceController.cpp','WdtBase.cpp'],[('wdtSend / createWdtSender','Wdt.cpp'),('wdtReceiveStart / wdtReceiveFinish','Wdt.cpp')],observe=['return codes, getCounts, getSender/getReceiver, destination tree, time to return'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
