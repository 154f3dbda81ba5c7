# id -> (technique, level_note[, level]); exec'd by gen_manifest.py
CLAIMS.update({
 'C06': (T + 'encode/decode round trips of generated messages at every protocol version', 'Sampled messages at all versions; compiled against a stand-in for folly.'),
 'C07': (T + 'mutated, truncated and random bytes offered to every decoder under AddressSanitizer; well-formedness invariants', 'Sampled bytes; every truncation point of sampled messages.'),
 'C08': (T + 'generated range sets against a bitmap reference model', 'Sampled range sets, values up to the 64-bit limits through an interval model.'),
 'C20': (T + 'generated requests and arbitrary strings; round trips, alphabet and secret-leak oracles', 'Sampled requests and strings.'),
 'C21': (T + 'generated request/time histories against a token-bucket reference model', 'Sampled histories on the injected-time interface; multi-thread use sampled only.'),
 'C22': (T + 'stateful model-based histories on the resource controllers', 'Sampled histories of create/release/limit operations.'),
 'C23': (T + 'generated value streams against an exact reference summary; merge metamorphic relations', 'Sampled streams.'),
 'C24': (T + 'generated per-thread statistics against a reference summary', 'Sampled statistics.'),
 'C29': (T + 'generated command lines run through the real wdt binary and options API against a reference table', 'Sampled flag combinations.'),
 'C31': (T + 'stateful model-based histories of calls on the Wdt interface with real transfers, several at a time, and races for one place', 'Sampled histories over loopback with current versions; interleavings are what the machine produces.'),
 'C30': (T + 'generated transfers, failures and interruptions with real wdt sender and receiver processes against a model of what is sent and which side may succeed', 'Sampled command lines over loopback; both ends are the current version.'),
})
CLAIMS.update({
 'C09': (T + 'generated directory trees, links and patterns against an independent walk and pattern matcher', 'Sampled trees up to about 30 entries; patterns limited to few quantifiers because std::regex backtracks exponentially.'),
 'C10': (T + 'generated files, block sizes, received-chunk histories and consumer/return schedules against a partition model', 'Sampled histories; consumer interleavings are whatever the machine produces.'),
 'C15': (T + 'generated files, ranges, buffers and truncations read through FileByteSource against the file bytes', 'Sampled ranges, offsets up to 2^38 in sparse files; page-cache and O_DIRECT reads.'),
})
CLAIMS.update({
 'C11': (T + 'model-based histories of sends, broken connections, faithful and lying checkpoints against a byte ledger; threads with generated delays', 'Sampled histories of up to 60 steps on up to 4 connections; the receiver is simulated.'),
})
CLAIMS.update({
 'C25': (T + 'generated thread schedules, outcomes and early exits on the real primitives under ThreadSanitizer, checked against recorded histories', 'Up to 8 threads; interleavings are those the machine produces with generated delays, plus data races found by ThreadSanitizer.'),
})
CLAIMS.update({
 'C12': (T + 'model-based multi-session log histories with crashes at every byte, lost files, concurrent writers and compaction against a reference log model', 'Sampled histories of up to 5 sessions; a crash is a log cut at a byte, disk files keep their sizes.'),
 'C13': (T + 'generated foreign sessions, hostile entries, damaged logs and changed files against the reference log model and range invariants', 'Sampled histories and damages.'),
 'C14': (T + 'generated files, blocks, writer threads and failing system calls against the source bytes and a directory model', 'Up to 6 writer threads; system-call faults are injected by link-time wrapping.'),
})
CLAIMS.update({
 'C19': (T + 'generated read/write histories over real sockets through a cutting forwarder, tampered recordings, and a differential check of the ciphers against OpenSSL', 'Sampled histories up to 200 kB; one known finding (whole stretches between key changes).'),
})
CLAIMS.update({
 'C16': (T + 'whole transfers between generated configurations and protocol versions, compared with the source tree and its counts', 'Trees of up to about 12 files and 1.5 MB, up to 5 connections, over loopback.'),
})
CLAIMS.update({
 'C17': (T + 'whole transfers through a forwarder which cuts, resets, stalls, delays and alters connections at generated places, compared with the source tree and with both reports', 'Small trees over loopback, up to 5 connections; fault positions sampled over the whole byte stream; protocol versions from 21 on for recovery, three known findings.'),
})
CLAIMS.update({
 'C18': (T + 'histories of interrupted transfers with a changing source, by log and by directory tree, against the source tree and a lower bound of the bytes received so far', 'Up to 5 attempts per history over loopback; interruptions by aborts and lost connections at generated bytes and times; one known finding.'),
})
CLAIMS.update({
 'C28': (T + 'transfers aborted at generated times and bytes by call, by checker or by destruction, with live, silent and absent peers; time, code, leftover thread and descriptor oracles; a model of the abort codes', 'Small trees over loopback, up to 4 connections; an abort must take less than 5 s where the timeouts are 40 s.'),
})
CLAIMS.update({
 'C26': (T + 'generated hostile sessions (names, numbers, settings, order, truncation, duplicates, floods), edited and random byte streams against a receiver in a directory with sentinels around it', 'Up to 3 ports and a few connections each; the peer knows the transfer id and, inside the encryption, the secret. File sizes limited to 16 MB.'),
 'C27': (T + 'generated peers of a sender: a model receiver that never acknowledges what it does not have (with cuts, hangs, dead ports, claims of received ranges), hostile replies at any moment, edited and random byte streams', 'Up to 4 ports and a few connections each; hostile peers know the encryption secret. A peer that repeats keep-alives for ever is only checked to be abortable.'),
})
