TRUST="Assumes the reference model (what was handed to the creator) and the comparison in harness/ are right; covers the executions that were run, listed in the evidence."
c("C01","runtime monitoring: read-back oracle over seeded and boundary insertion sequences","Every content inserted by generated and boundary-grid sequences is read back through its address and compared byte for byte, in content packs and in containers of every packaging. "+TRUST)
c("C02","runtime monitoring: read-back oracle over seeded schemas and entry sets, plus must-fail cases at each format limit","Every property of every entry is read back (generic and typed readers) and compared with the model; windows checked to their end and past it. "+TRUST)
c("C03","runtime monitoring: order and lookup oracle over adversarial key sets","Stored order compared with the model's order; binary and linear lookups compared with model membership for present keys and neighbours. "+TRUST)
c("C13","runtime monitoring: model-based view programs","Random programs of stream/slice/cut/convert over raw, compressed and file backed contents against the model's byte range. "+TRUST)
c("C16","runtime monitoring: storage oracle by an independent decoder","Clusters of generated packs are decoded by a decoder sharing no code with the library and their compression and verbatim bytes compared with the hints. "+TRUST)
c("C10","runtime monitoring: relocation and identity oracle over packaging rewrites","Packs are moved, concatenated, embedded behind foreign data, replaced by impostors or removed, and everything read through the container is compared with the model or must be an error naming the pack. "+TRUST)
c("C11","runtime monitoring: identity and multi-pack lookup oracle","Containers of many content packs with arbitrary ids, with packs missing or damaged: other packs read exactly, missing ones reported. "+TRUST)
c("C12","runtime monitoring: rewrite oracle over set_location and concat programs","Every rewrite is followed by a whole dump compared with the dump before, and a byte comparison outside the rewritten slots. "+TRUST)
c("C15","runtime monitoring: reference resolution oracle over sorted stores","Entries referring to entries (same and other stores, forward, backward, chained) resolved through the reader and compared with the model after sorting. "+TRUST)
c("C04","runtime monitoring: fault injection (byte alterations) with the check results as oracle","Pristine checks must be true; every covered byte of small containers (and sampled multi-byte, range, exchanged, re-checksummed alterations and big packs) is altered and every check must fail. "+TRUST)
c("C14","runtime monitoring: independent decoder over generated containers, and a reference corpus read by the current reader","Every file of generated containers is decoded by code sharing nothing with the library and compared with the model; 48 committed containers of the pinned version are read and compared item by item. "+TRUST)
c("C05","runtime monitoring: fault injection, every answer of the reader compared with the pristine answers","Every byte of small containers of all packagings (and sampled positions, ranges and groups of big ones) is altered; whatever the reader still answers must equal the pristine answer, or be refused; differing content bytes only with a failing check. Optimised and debug-assertion builds. "+TRUST)
c("C06","runtime monitoring: fault injection in watched worker processes (crash, panic, abort and hang detection; AddressSanitizer)","Flips, ranges, truncations at every length, extensions, foreign files and lost, inserted, misplaced or exchanged blocks are opened and read completely in worker processes of an optimised, a debug-assertion and an AddressSanitizer build, and by the jbk tool; panic in any thread, signal, abort or no progress is a violation. "+TRUST)
c("C07","runtime monitoring: byte oracle over concurrent readers under injected delays and rendezvous, in optimised and ThreadSanitizer (thorough: AddressSanitizer too) builds","2 to 48 threads read slices, streams, kept and shared regions, entries and checks of freshly opened containers (more clusters than cache slots, more decoders than pool threads, all compressions, many packs); every byte compared; data race, memory error, panic, read error or lack of progress is a violation. "+TRUST)
c("C08","runtime monitoring: repeated creation of the same insertions under injected schedules (worker counts, delays, rendezvous), full read-back oracle","The same insertion sequences are created with 1 to 15 compression workers under twelve kinds of delays; returned addresses, every content and entry, the checks and (sampled) an independent decoding must be those of the model, and creation must end; thorough also under ThreadSanitizer. "+TRUST)
c("C09","runtime monitoring: fault injection into every file system call of creations (seccomp trap), destination judged by read-back after each","Creations of generated containers run in a child process in which each system call on output and input files in turn fails, is cut short after a byte, runs out of space or kills the process (also given up or refused creations); afterwards the destination must be absent, the previous file byte for byte, or a complete container equal to the model, with check() true. "+TRUST)
