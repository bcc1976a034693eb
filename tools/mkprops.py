import json, os
VD=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NOT="The existing tests run one fixed scenario once under one thread timing (or print a picture for a person to look at); "
p("C01","Pulse compression handles every pulse exactly once and in order",
"Every pulse handed to a running pulse compressor with raw data is first inspected, in arrival order, and then either compressed exactly once with the matched filter group the assignment rule gives it (pulse number modulo number of groups) or marked skipped, and is finally marked processed; its status only gains marks and no pulse is passed over, processed twice or processed before its raw data are ready. A pulse is skipped only when the compressor has fallen behind. A reader that drains processed pulses gets every one of them once, in arrival order, whatever the number of worker threads and however they are scheduled.",
["schedules","configurations","inputs"],"All thread schedules of feeder, watcher, workers and reader, for any ring depth, worker count and number of filter groups, with pulses arriving in any burst pattern.",
NOT+"which interleaving of feeder, watcher and workers occurs, ring wrap-around and lagging workers are left to chance.",
["source/RKPulseEngine.c","source/RKMisc.c","headers/RadarKit/RKTypes.h"],
[("watcher assigns pulses to workers round-robin","source/RKPulseEngine.c pulseWatcher"),("worker takes every n-th pulse and sets Compressed/Skipped/Processed","source/RKPulseEngine.c pulseEngineCore"),("in-order consumer","source/RKPulseEngine.c RKPulseEngineGetProcessedPulse")],
[("pulse status","HasIQData, Inspected, Compressed, Skipped, Processed, Consumed bits of each ring slot"),("tic / lag / index","progress of watcher and workers")],
["pulse->header.s, pulse->parameters.planIndices/filterCounts of each slot","return of RKPulseEngineGetProcessedPulse"])
p("C02","Range-split pulse filtering equals sequential filtering",
"With the pulse-to-pulse filter on and a steady gate count, the output for every pulse and every range gate is what a single sequential filter run over the pulses in arrival order produces, for any number of worker threads and any schedule: every gate is covered by exactly one worker, filter history is carried from one pulse to the next, and no pulse is filtered twice or out of order. A pulse is marked filtered only after all its gates are done, and pulses become filtered in arrival order. With the filter off the data pass through unchanged and every pulse is still marked as processed. (Filter changes are made between pulses, not while pulses are in flight.)",
["schedules","configurations","histories"],"All schedules of watcher and range workers, any worker count, gate count, filter shape and enable/disable history.",
"No test compares multi-worker filtering against a sequential reference under varying schedules; the test program only times it.",
["source/RKPulseRingFilter.c"],
[("watcher clears done flags and wakes all range workers per pulse","source/RKPulseRingFilter.c pulseRingWatcher"),("range worker","source/RKPulseRingFilter.c ringFilterCore")],
[("workerTaskDone","per slot and worker done flags")],["pulse->header.s RingInspected/RingFiltered/RingProcessed","pulse Y data after filtering"])
p("C03","Every pulse is tagged with its bracketing position and sweep",
"Every pulse with raw data is tagged, in arrival order and exactly once, with an azimuth and elevation interpolated between the two consecutive position reports that bracket its time (correctly across the 0/360 degree wrap), and with the scan and sweep markers of the report interval it falls in. A sweep-begin marker appears on exactly the first pulse of a sweep and a sweep-end marker on exactly one pulse, the first after the antenna reported the completion of the sweep (or ceased to scan), so that begins and ends alternate. A new operating configuration is started exactly when a sweep begins, the kind of scan changes or the gate count changes, and is in effect for that very pulse, so that all pulses of one sweep carry the same configuration unless an operator enters another. A pulse whose bracketing reports have not arrived yet stays untagged until they do.",
["schedules","inputs","histories"],"All interleavings of pulse and position arrivals and all sequences of position flags, any ring depths.",
NOT+"no test drives the tagger with arbitrary interleavings of position reports and pulses or with wrap-around of both rings.",
["source/RKPositionEngine.c","source/RKConfig.c"],
[("pulse tagger","source/RKPositionEngine.c pulseTagger"),("configuration advance","source/RKConfig.c RKConfigAdvance")],
[("pulse status HasPosition, azimuth/elevation, marker, configIndex",""),("positions ring","flag and time of each report")],["pulse->header fields","configs ring and its index"])
p("C04","Pulses are grouped into rays without loss or overlap",
"Consecutive pulses are grouped into rays so that every pulse of a sweep belongs to the ray of its one-degree cell (or to the ray being closed when a sweep ends), rays come out in order, each ray's begin and end directions are those of its first and last pulse, and no ray mixes pulses of different sweeps. A ray is marked ready exactly once, only after its moments are computed, and carries the sweep-begin and sweep-end markers of the pulses it was made from. All this holds for any number of worker threads and any schedule.",
["schedules","inputs","configurations"],"All schedules of gatherer and workers, any pulse azimuth/elevation/marker sequence, ring depths and worker count.",
NOT+"gathering boundaries, ring wrap and worker schedules are not varied.",
["source/RKMomentEngine.c","source/RKMisc.c"],
[("pulse gatherer","source/RKMomentEngine.c pulseGatherer"),("moment worker","source/RKMomentEngine.c momentCore")],
[("ray status","Vacant/Processing/Processed/Skipped/Ready bits"),("ray source","origin and length of the pulses of each ray")],["ray->header of each slot as it becomes ready","return of RKMomentEngineGetProcessedRay"])
p("C05","Each completed sweep is collected whole, once and in order",
"When a ray marked as the end of a sweep becomes ready, exactly the rays from that sweep's first ray up to and including it are gathered in order and handed on as one sweep, once, before their slots are reused. (A ray that ends one sweep and begins the next belongs to both.) A sweep of slightly more than a full turn is trimmed to 360 rays: with exactly one ray too many and its first ray the one that began it, the last is dropped; with more, the latest 360 before the end ray are kept. The products of a sweep, one for each registered product whose moments the sweep has, carry its rays, times and configuration and are written once each, sweep after sweep. A ray of an open sweep, or of one still being handled, is never released, and rays of an abandoned sweep, or of none, are released without producing a sweep. A flush ends the open sweep with the latest ray. When nothing is in progress the engine is not busy.",
["schedules","inputs","histories"],"All sequences of sweep markers on rays, all schedules of ray gatherer, sweep manager and ray releaser, any ring depth.",
NOT+"no test runs the sweep engine over arbitrary marker histories or checks which rays a sweep holds.",
["source/RKSweepEngine.c"],
[("ray gatherer","source/RKSweepEngine.c rayGatherer"),("sweep manager and ray releaser","source/RKSweepEngine.c sweepManager, rayReleaser"),("collection and trimming","source/RKSweepEngine.c RKSweepCollect")],
[("scratch spaces","a small ring of gathered sweeps"),("ray status","")],["sweep handed to product handlers: ray count, header, rays","rays[].header.s"])
p("C06","Configuration history: immutable entries, inherited settings, unique ids",
"Each configuration change appends one new entry to the configuration history whose unspecified settings are inherited from the previous entry, whose specified settings take the new values, and whose identifier is one more than the previous entry's; earlier entries still within the ring are not altered. Concurrent changes are serialised: none is lost, no entry mixes two changes, and an invalid setting never blocks later changes. After the change returns, the current configuration is the new entry.",
["schedules","inputs","histories"],"All sequences and interleavings of configuration changes with any combination of settings, any ring depth.",
"No test varies the sequence of keys, concurrent callers, invalid inputs or wraps the configuration ring.",
["source/RKConfig.c"],[("append an entry","source/RKConfig.c RKConfigAdvance")],[("configs ring, configIndex","")],["configs[] and configIndex after each change"])
p("C07","Scan sequencing follows the programmed lineup",
"The antenna controller runs the sweeps of the current scan lineup in order, one at a time; it takes up a queued lineup only at the end of the current one (or at once when idle or when asked for immediately), repeats the current lineup when nothing is queued, and runs a one-time lineup at most once. For each sweep it issues position and rate commands appropriate to the sweep type, and marks position reports as in-sweep, sweep-begin, sweep-end and point mode consistently: one begin per sweep, one end, end before the next begin. Commands to start, stop, go to the next sweep, point or park take effect from any state, and the number of sweeps never exceeds the lineup capacity.",
["histories","inputs"],"All sequences of scan commands and position reports, for every sweep type (PPI, sector, RHI, point).",
"The tests print one simulated lineup; the space of command and position histories is unbounded.",
["source/RKSteerEngine.c"],[("scan state machine","source/RKSteerEngine.c RKSteerEngineGetAction*"),("lineup update","source/RKSteerEngine.c RKSteerEngineNextHitter, RKSteerEngineExecuteString"),("flags","source/RKSteerEngine.c RKSteerEngineUpdatePositionFlags")],
[("batter / on-deck / in-the-hole lineups, progress, sweep index","")],["returned action and position flag, per position report","vcp handle summary"])
p("C08","Disk retention: oldest first, within the limit, nothing else",
"Once the recorded usage of a managed data folder exceeds its limit, files are removed oldest first until the usage is within the limit again, and a day folder is removed only when it has become empty. Every recorded file remains as long as the usage does not require its removal, files are removed in order of the time in their names, and a file that was not recorded by the radar, or lies outside the managed folders, is never removed. Files found on disk at start-up are managed like the ones added later, and adding files concurrently loses none.",
["histories","inputs","schedules"],"All sequences of file additions with any sizes, names, dates and pre-existing folder contents, before and after restarts.",
"No test checks which files are deleted, in which order, or how much is left; deletion is irreversible.",
["source/RKFileManager.c","source/RKFoundation.c"],[("file remover","source/RKFileManager.c fileRemover"),("initial listing","source/RKFileManager.c refreshFileList"),("add","source/RKFileManager.c RKFileManagerAddFile")],
[("usage, limit, file ring of each folder worker","")],["the directory tree after each step"])
p("C09","Recorded raw data are complete, ordered and split at sweep changes",
"While recording is on, every pulse that has been tagged and processed is written exactly once, in order and with the bytes it had, to the raw file of its sweep's configuration; a new file begins whenever the configuration changes or the file holds the maximum number of pulses, and each file begins with one header and the waveform it needs and reads back to the same pulses. Turning recording off, on, or stopping the recorder ends the current file with everything received so far in it. When recording is off no file is left behind, and every finished file is reported to the file manager once.",
["histories","schedules","inputs","configurations"],"All sequences of pulses, configuration changes, record toggles and stop points; any gate count, cache alignment and raw data type.",
"The tests write one file of one kind and never compare the bytes with what was produced, nor toggle or stop in the middle.",
["source/RKRawDataRecorder.c","source/RKFileHeader.c"],[("recorder loop","source/RKRawDataRecorder.c pulseRecorder"),("write cache","source/RKRawDataRecorder.c RKRawDataRecorderCacheWrite/CacheFlush")],
[("cache","bytes not yet written"),("pulse count of the file, open file","")],["file contents after each step"])
p("C10","Health records combine all sources, whole and in order",
"Each health record the system emits is a single valid JSON object, stamped with the time its round began, that holds for every active health source exactly one of its reports, complete and unchanged: the first report the source begins after the round began or, once the round has waited about a second for it, the latest complete report of the source with every reading marked old. Per source, reports appear in the order of arrival and none appears twice as a new one. A source that stalls, even in the middle of a report, or falls silent neither stops nor damages the records as long as the radar's own node keeps reporting, and its reports are shown again when it resumes. Records come out in order, a record marked ready is complete and stays unchanged until its slot is reused. The radar's own position and heading are shown while no valid GPS reading is in the record, and follow the GPS only after it has been off by a significant amount in five valid readings in a row.",
["schedules","histories","fault_sequences"],"All interleavings of reports from any set of health sources, including sources that stall within a report, stop and resume, and all sequences of GPS readings.",
NOT+"no test lets sources stall or interleaves several sources.",
["source/RKHealthEngine.c","source/RKMisc.c","source/RKRadar.c"],[("consolidator","source/RKHealthEngine.c healthConsolidator"),("value ageing","source/RKMisc.c RKReplaceAllValuesOfKey / RKReplaceEnumOfKey"),("slots of the sources","source/RKRadar.c RKGetVacantHealth / RKSetHealthReady")],
[("per-source rings and indices, healthIndex","")],["health ring strings and flags"])
p("C12","Server runs each received command once, in order, per connection",
"Every complete command line a client sends is handed to the command handler exactly once, in the order sent and with exactly its text, however the bytes are split or merged in transit and however slowly commands execute. One client's commands, connection or departure do not disturb those of another, the number of connected clients never exceeds the limit, and a slot freed by a departed client can be used again. Stopping the server ends all connections and returns.",
["schedules","inputs","histories","fault_sequences"],"All segmentations of the byte stream, all interleavings of clients connecting, sending and leaving, any handler duration.",
"The test server is started by hand and used interactively; segmentations and slow handlers are not exercised.",
["source/RKServer.c"],[("accept loop and operator slots","source/RKServer.c serverRoutine, RKOperatorCreate"),("command reader and executor","source/RKServer.c RKOperatorRoutine, RKOperatorCommandRoutine")],
[("command ring of each operator","")],["calls to the command handler","bytes each client receives"])
p("C13","Packets are delivered whole and in order across partial transfers",
"A packet sent to a client arrives as its delimiter header followed by exactly its payload bytes, in one piece, whatever short writes, interruptions or temporary back-pressure the connection shows, and packets from several threads to one client are never interleaved. A packet reader returns each packet with its type and payload exactly as sent, in order, for any split or merge of the byte stream, and never stores beyond its buffer. When a transfer cannot be completed the failure is reported instead of sending corrupted data.",
["fault_sequences","inputs","schedules"],"All sequences of short writes/reads, EAGAIN and interrupts, any payload sizes including zero and the maximum.",
"Loopback tests never see short writes; the resume path is not executed by any test.",
["source/RKServer.c","source/RKNetwork.c","source/RKClient.c"],[("send with resume","source/RKServer.c RKOperatorSendPackets; source/RKNetwork.c RKNetworkSendPackets"),("framed receive","source/RKClient.c theClient")],
None,["byte stream received by the peer","client handler calls"])
p("C14","WebSocket messages are framed, unmasked and delivered intact",
"Every message the peer sends in a valid WebSocket frame of any length class is delivered to the receive handler once, in order, with exactly its payload, however the frames are split or coalesced in transit; every message submitted for sending goes out once, in order, as a valid masked frame. A ping is answered by a pong with the same payload, a close is answered and ends the session, and the open and close handlers are called once per session.",
["inputs","schedules","fault_sequences"],"All payload lengths and contents, all segmentations and coalescings, all interleavings of sends, receives, pings and closes.",
"The test connects to a live site by hand; no automated test splits or merges frames.",
["source/RKWebSocket.c"],[("encode/decode","source/RKWebSocket.c RKWebSocketFrameEncode/Decode"),("session loop","source/RKWebSocket.c transporter")],[("payload ring","")],["handler calls","bytes received by the peer"])
p("C15","Product registry keeps slots and identities consistent",
"Registering a product gives it a slot of its own and an identity that no other currently registered product has, whatever threads register at the same time; unregistering frees exactly that slot, for later registrations to use, and disturbs no other product. The number of registered products never exceeds capacity, a request beyond capacity is refused without harm, and a lookup or removal by identity only ever finds a currently registered product.",
["histories","schedules","inputs"],"All sequences of register, unregister, acquire and complete calls up to and beyond capacity.",
"The tests register a fixed handful of products once.",
["source/RKSweepEngine.c","source/RKRadar.c"],[("registry","source/RKSweepEngine.c RKSweepEngineDescribeProduct, UndescribeProduct, GetVacantProduct, SetProductComplete")],[("product slots","flag, pid")],["returned ids, productBuffer"])
p("C16","Preference lookup returns every entry once, in file order",
"After a preference file is loaded, looking up a keyword (in any case) yields its first entry in file order and further lookups of the same keyword yield each following entry once, then nothing until another keyword has been found or the file is read again; switching keyword starts at that keyword's first entry, and a lookup that finds nothing leaves the iteration where it was. Comments and blank lines never appear as entries, values keep their text without the comment that follows, and typed values (integers, numbers, booleans, strings, controls, calibrations) are read as written, cut to the room there is for them. Reading the file again shows its new contents only; a file that is not there changes nothing. At most 128 entries of the first 1000 lines are kept.",
["inputs","histories"],"All files and all sequences of lookups, typed reads, counts and reloads.",
"The test prints one file.",
["source/RKPreference.c"],[("parser and lookup","source/RKPreference.c RKPreferenceUpdate, RKPreferenceFindKeyword")],[("object list, previousKeyword, previousIndex","")],["returned objects"])
p("C17","Command queue is first-in first-out and loses nothing accepted",
"Commands pushed into a command queue are popped once each, in the order pushed, by any number of concurrent producers and consumers; a pop from an empty queue says so (or waits, for a queue made to wait) and a push that does not fit is refused without disturbing the commands already queued.",
["schedules","histories"],"All interleavings of concurrent pushes and pops, any queue depth including full and empty.",
"The only test pushes a few commands from one thread.",
["source/RKMisc.c","source/RKFoundation.c"],[("queue","source/RKFoundation.c RKCommandQueuePush/Pop")],[("ring of commands, indices, count","")],["popped commands"])
p("C18","Engines start, stop and restart cleanly at any moment",
"An engine that has been started reports itself active (those that follow the pedestal, with its first reports); stopping it at any moment, whatever its input and its thread timing, returns in bounded time with all its threads ended and its active state cleared, after which it touches no shared data and can be started again and processes new input as before. Stopping an engine that is not running is harmless.",
["schedules","histories","fault_sequences"],"All points in the schedule at which stop can arrive, all engines, any number of start/stop cycles.",
"The tests stop each engine once when it is idle.",
["source/RKPulseEngine.c","source/RKPulseRingFilter.c","source/RKPositionEngine.c","source/RKMomentEngine.c","source/RKSweepEngine.c","source/RKHealthEngine.c","source/RKRawDataRecorder.c","source/RKFileManager.c","source/RKSteerEngine.c"],
[("Start/Stop of each engine","source/RK*Engine.c")],[("engine state word","Active, WantActive, Activating, Deactivating bits")],["return of start and stop","thread count"])
p("C19","Ring slots are handed out in turn with identities that only grow",
"Successive requests for a vacant pulse, ray, health or position slot hand out the slots of the ring in turn, each cleared to vacant with an identity one more than the previous request's (a position is finished before the next is asked for), so an identity always tells the slot it lives in and its age; no request disturbs the data of the most recent slots. The latest-entry lookups return the newest finished entry.",
["histories","configurations"],"All request and completion sequences, for any ring depth, over many wrap-arounds.",
"Tests stop before the rings wrap, or use one depth.",
["source/RKMisc.c","source/RKRadar.c"],[("slot allocation","source/RKMisc.c RKGetVacant*FromBuffer; source/RKRadar.c RKGetVacantPulse/Position/Health")],[("ring index, slot i and status","")],["returned slots"])
p("C20","Stream requests name a set of streams and round-trip",
"A stream request string denotes exactly the set of streams its letters stand for, independent of the order and repetition of the letters, with unknown letters ignored and with at most one status-type view: the last one named. Rendering a set of streams as a request string and reading it back gives the same set.",
["inputs"],"All request strings and all sets of streams.",
"Tests check a few fixed strings.",
["source/RKFoundation.c"],[("parse and render","source/RKFoundation.c RKStreamFromString, RKStringFromStream")],None,["returned stream set"])
p("C21","Control and calibration tables stay within capacity and in order",
"Controls and waveform calibrations added to a radar appear in the order added with exactly the label and command (name and values) given, text cut at the field size, updates touch only the entry named, clearing empties the table, and concluding gives each entry an identity different from every other. Adding beyond capacity is refused and leaves every stored entry and the rest of the radar unharmed.",
["histories","inputs"],"All sequences of add, update, clear and conclude operations, to and beyond capacity.",
"No test adds up to or beyond capacity.",
["source/RKRadar.c"],[("tables","source/RKRadar.c RKAddControl*, RKUpdateControl, RKConcludeControls, RK*WaveformCalibration*")],[("count, capacity, entries","")],["tables after each call"])
p("N01","Time stamps from tick counts are smooth and track wall time",
"Time stamps assigned from transceiver and pedestal tick counts increase with the tick count and stay within a bounded offset of the wall-clock arrival times, under jitter, bursts and tick resets.",
["inputs","histories"],"All arrival-time jitter and tick sequences.",
"The tests run one synthetic jitter sequence.",
["source/RKClock.c"],[("clock tracker","source/RKClock.c RKClockGetTime")],None,["returned times"])
p("N02","Moment estimates are numerically correct",
"For any IQ data the computed power, velocity, width and dual-polarization moments equal their textbook estimators within floating-point error.",
["inputs"],"All IQ data.",
"The tests use a few synthetic signals.",
["source/RKPulsePair.c","source/RKPulsePairHop.c","source/RKPulsePairATSR.c","source/RKMultiLag.c","source/RKSpectralMoment.c"],[("moment processors","source/RKPulsePair*.c")],None,["ray moment data"])
open(VD+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
