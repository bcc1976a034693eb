S = ('Seeded deterministic schedules of the unmodified code (preemption at every basic block, virtual time) recorded and checked '
     'against the specification by TLC; the specification itself is model-checked exhaustively for small constants. ')
CLAIMS = {
 'C01': ('model_checking', 'TLA+ spec (PulsePipe) model-checked with TLC; trace validation of scheduled runs of the real engine', S +
         'Assumes a feeder which does not lap the ring and the default semaphore hand-over.'),
 'C02': ('model_checking', 'TLA+ spec (RingFilter, split-worker design refines it under TLC); trace validation of scheduled runs of the real engine against the sequential difference equation', S +
         'Assumes a constant gate count during a run and filter changes only while no pulse is in flight; integer-valued samples and coefficients.'),
 'C07': ('model_checking', 'TLA+ spec (Steer, a deterministic controller) model-checked with TLC for the sequencing properties; the real controller replayed over random command and antenna-motion histories and compared event by event with the spec', 'Random histories of commands and antenna motion (including implausible jumps) are run through the real controller and every action, flag and lineup count is compared with the specification by TLC; the sequencing guarantees (in order, one end per sweep, lineup changes only at its end, once at most once) are checked exhaustively on the specification for small domains. '
         'Assumes angles on a 1/8 degree grid, well-formed commands, and no speed-down mode.'),
 'C03': ('model_checking', 'TLA+ spec (PosTag) model-checked with TLC; trace validation of scheduled runs of the real engine', S +
         'Assumes reports and pulses each arrive in time order, rings that are not lapped, and report spacings for which interpolation is exact.'),
 'C04': ('model_checking', 'TLA+ spec (Rays) model-checked with TLC; trace validation of scheduled runs of the real engine', S +
         'Assumes a feeder which does not lap the rings, a ray counter no more than an eighth of the ring behind the reader, and the current (not the old) gatherer; moment values themselves are stand-ins.'),
 'C05': ('model_checking', 'TLA+ spec (Sweeps) model-checked with TLC; trace validation of scheduled runs of the real engine', S +
         'Assumes rays are fed without lapping the ring, an end marker only after a begin (except the very first), recording switched and flushes made while the engine is idle, and fewer than 1500 rays per sweep.'),
 'C15': ('model_checking', 'TLA+ spec (Registry, linearizable operations) model-checked with TLC; recorded histories of concurrent calls on the real registry checked for a linearization by TLC', S +
         'Slots are compared by index; a product being recorded by the sweep engine while it is removed is left out.'),
 'C06': ('model_checking', 'TLA+ spec (Config) model-checked with TLC (lock/copy/apply/publish design, and an unlocked negative control); trace validation of scheduled concurrent changes on the real ring', S +
         'Every published entry is compared field by field, every older entry is watched at each step. The settings that the code does not implement (waveform ids, user parameters) are left out; values are small exact numbers.'),
 'C20': ('model_checking', 'TLA+ spec (Streams, a letter-by-letter reader) model-checked with TLC for order independence, idempotence and round trip; requests and rendered sets of the real code checked against it by TLC', 'Every single character, and random pairs, strings and sets, are read and rendered by the real code (address-sanitized) and compared with the specification; order independence and the round trip are checked exhaustively on the specification over a small alphabet. The terminal-size letter is an action, not a stream, and is not rendered; streams without a letter cannot be rendered.'),
 'C16': ('model_checking', 'TLA+ spec (Pref: file to entries, lookup, typed values, at the level of characters) model-checked with TLC over all small files and lookup histories; files read and lookups of the real code (address-sanitized) checked against it by TLC', 'Generated files (comments, indentation, mixed case, overlong words, quotes left open, more than 128 entries, more than 1000 lines) are read by the real code; lookups, counts and typed reads, reloads and missing files are compared with the spec. Numbers have up to four digits and two decimals; exponents and hexadecimals are not generated.'),
 'C12': ('model_checking', 'TLA+ spec (Server; accept loop, reader, ring of commands and executor in MC_Server shown to behave as it) model-checked with TLC incl. liveness, variants without room check, draining or joining rejected; trace validation of scheduled runs of the real server with clients over virtual sockets', S +
         'The order in which clients, operators and stop interleave is whatever the scheduler draws; only trailing blanks, CR and LF are stripped from a line, and a line longer than the command buffer is taken in pieces of 510 characters; what a client sent before a hang-up, a silence or a stop need not be run.'),
 'C14': ('model_checking', 'TLA+ spec (Socket; the client thread with its ring, buffer and pieces in MC_Socket shown to behave as it) model-checked with TLC incl. liveness, four defective variants rejected; trace validation of scheduled runs of the real client against a peer over virtual sockets', S +
         'Fragmented messages (fin = 0), TLS and frames that do not fit the 1 MB buffer (which end the session) are left out; what is submitted outside a session is dropped when the next one opens; payload bytes are compared in the harness.'),
 'C13': ('model_checking', 'TLA+ specs Wire (sending: calls, pieces, refusals, failures) and Frames (receiving) with step-by-step routines in MC_Wire and MC_Frames model-checked with TLC, variants without the lock, going on after a cut packet or forgetting what was read rejected; traces of the real send and receive routines over connections with injected short transfers, refusals, interrupts and errors, under a deterministic scheduler, checked by TLC', 'Sending: stream and command handlers and helper threads of one connection send packets, strings, delimited strings, responses and beacons while the network takes pieces, refuses for a while, or fails. Receiving: the client in its three formats and the server-side payload reader get packets of 0 to 60000 bytes in any segmentation, with impossible sizes and packets cut off at the end of some connections. Temporary means fewer than 5 refused attempts in a row for an operator, 100 for RKNetworkSendPackets.'),
 'C09': ('model_checking', 'TLA+ spec (Recorder; cache and files as history in MC_Recorder) model-checked with TLC incl. liveness of stop, variants that lose the cache at the stop or read the flag twice rejected; traces of the real recorder under a deterministic scheduler, with every file read back byte by byte and with the library reader when it is closed, checked by TLC', S +
         'Configurations change by fewer than eight between a pulse fed and the recorder, the ring is not lapped, files begin in different milliseconds, write errors other than short and interrupted writes are left out; a file is closed by the next pulse or the stop, not by the toggle itself.'),
 'C08': ('model_checking', 'TLA+ spec (Files) model-checked with TLC incl. liveness, five wrong ways of keeping files rejected; the real file manager runs as an unprivileged user in a scratch folder under a deterministic scheduler, every removal it asks for is recorded and the listing of the folder at rest compared, TLC checks the traces', S +
       'Random histories of files of any size (also terabytes, sparse) and date, before and between runs, reported or not, several threads, restarts, files of others of a dozen kinds in and around the managed folders, logs of any age. A failing remove() and a folder removed between its making and the making of its first file are left out.'),
 'C10': ('model_checking', 'TLA+ spec (Health) model-checked with TLC incl. liveness, four wrong engines rejected (copies into the ring of the source, does not wait, waits for everyone, shows a report twice); the real engine and the real slot functions run with stalling, silent and resuming sources under a deterministic scheduler (also preempting at every memory access), every record is parsed strictly and TLC checks the traces, GPS readings included', S +
       '1-5 sources on any nodes, up to 280 reports each, rings of 12-31 slots. A source does not lap its ring within a round, its reports are JSON objects with unique keys, together shorter than 3.5 kB; one GPS at a time.'),
 'C17': ('model_checking', 'TLA+ spec (Queue; the ring step by step with its lock in MC_Queue, shown to behave as the queue) model-checked with TLC, an unlocked variant rejected; call and return histories of the real queue under a deterministic scheduler that preempts at every basic block and memory access checked by TLC to be linearizable to it', 'Random schedules of 1-4 threads pushing and popping, waiting and not, depths 1-20, full and empty. A popped command belongs to the thread until its next pop.'),
 'C18': ('model_checking', 'TLA+ spec (Lifecycle) with an implementation model of master thread, workers and semaphores that TLC shows to refine it with liveness, seven wrong ways of stopping and starting rejected; each of ten real engines is started and stopped at random moments of its work under a deterministic scheduler, its thread count, state word and shared memory recorded, TLC checks the traces', S +
       'Ten engines, 2-4 runs each, input before and during the run, also after the stop; half the runs are followed until all input is dealt with. Host monitor and relay (network), two threads stopping at once, stop during start and start while running are left out.'),
 'C19': ('model_checking', 'TLA+ spec (Slots) model-checked with TLC, four wrong ways of handing out slots rejected; random histories of requests, marks, clearings and lookups on a real radar (address-sanitized), after each every slot of every ring is compared with the spec by TLC, content included', S +
       'Rings of depth 2 to 41, up to dozens of rounds, eight rings at once. Requests of one ring come from one thread and a position that is taken is finished before the next (both are how the library is used).'),
 'C21': ('model_checking', 'TLA+ spec (Tables) model-checked with TLC; random histories of the real calls (address-sanitized) compared with the spec slot by slot', 'Histories of additions, updates, clearings and conclusions, to and far beyond capacity, are run on the real tables; after each the count, every slot, every identity and the rest of the radar object are compared with the specification by TLC.'),
}
NA = {
 'N01': 'Continuous floating-point tracking error; TLA+/TLC has integers only and there is no discrete state machine whose transitions decide the property.',
 'N02': 'Numerical accuracy of floating-point estimators; not expressible as states and transitions over TLC values.',
}
