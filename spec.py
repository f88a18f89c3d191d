"""The one description of every property: statement, anchors, and how its
check is configured. gen.py derives properties.jsonl and MANIFEST.json."""

PROPS = {}
NOT_APPLICABLE = []

RT = "deterministic simulation runtime: scheduler, mutexes, condition variables, threads, clocks, allocator and disk below the code under test"


def prop(pid, title, statement, over, otext, why, files, mechanism, observe, scen, rule, real, stub, assume, note,
         state=(), quick=20, thorough=600, probes=(), faults=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, otext=otext, why=why, anchors=files, mechanism=mechanism, observe=observe,
        state=state, hook=hook, files=scen, rule=rule, real=real, stub=stub, assume=assume, note=note, quick=quick,
        thorough=thorough, probes=list(probes), faults=list(faults))


def na(pid, title, statement, over, otext, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(pid=pid, title=title, statement=statement, over=over, otext=otext, why=why, anchors=files,
                               mechanism=mechanism, reason=reason))


PAR = "include/maec/parallel.hpp"
PAR_REAL = ["ParallelModule and the std::thread, std::mutex, std::condition_variable, std::deque code it is built from",
            "AudioModule/SinkModule/SourceModule chain code, AudioBuffer, ModuleMixDown, amplitude modules"]
PAR_STUB = ["kernel scheduler, futexes, clocks: replaced by the simulator (one baton, seeded choice of who runs)",
            "harness source module that produces numbered buffers", "no stubs inside the library"]
PAR_ASSUME = ["sequentially consistent memory: the simulator interleaves at instruction granularity but does not reorder stores; unordered accesses are reported as races instead",
              "the chain is linked and synced before it is started and torn down parallel stages first"]

prop("P01", "A parallel stage is transparent: same buffers, same order, exactly once",
     "Placing parallel stages anywhere in a chain, also several in a row or one per input of a mixer, does not change what reaches the "
     "consumer: while the chain runs, every buffer the upstream produces, also an empty one, is delivered exactly once, in production order, with its samples, "
     "channel count and sample rate intact, for every read-ahead limit, every thread schedule and any slowness of either side.",
     ["schedules", "programs", "configurations"],
     "all interleavings of workers, consumer and limit changes; all placements of one to five stages; all limits of at least one; buffers that change shape from one to the next",
     "The suite has one single-threaded happy-path test per feature; it sees one schedule of the worker, no spurious wake-ups, no stalls, no nested or mixed stages.",
     [PAR, "include/maec/audio_module.hpp", "include/maec/module_mixer.hpp"],
     [{"name": "hand-over queue guarded by a mutex and condition variable", "where": PAR + ": run_thread, meta_process"}],
     ["buffers returned by the sink after each pull"],
     ["sc_parallel"],
     "Each run draws a chain (parallel stages, amplitude stages, pass-through stages, mix-downs, up to five workers), buffer shapes, limits, a scheduling policy and stalls; the consumer compares every delivered buffer with the sequential value.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Seeded search over schedules; an order, loss, duplication or damage that some explored schedule exposes is found. Sampling, not proof.",
     probes=["nested-parallel", "mixed-parallel", "empty-blocks"], faults=["slow-upstream", "slow-consumer", "spurious-wakeup"])

prop("P02", "Read-ahead never exceeds its limit and always refills up to it",
     "A parallel stage never works on a buffer further ahead of the consumer than its read-ahead limit allows, and whenever the consumer is idle "
     "it fills up to exactly that limit; a changed limit takes effect at once, also when it is raised while a consumer is already waiting. "
     "The reported fill level always equals the number of buffers produced and not yet taken.",
     ["schedules", "histories"],
     "all interleavings of worker, consumer and limit changes, including limits of zero, raised and lowered while running",
     "Tests look at the fill level after a fixed sleep for one limit; they cannot see a transient overrun, a missed refill or a limit change racing with the worker.",
     [PAR], [{"name": "worker waits while the queue is full", "where": PAR + ": run_thread"},
             {"name": "limit and fill level accessors", "where": PAR + ": max_size, size"}],
     ["start of every upstream processing call", "reported fill level at quiescence"],
     ["sc_parallel"],
     "Each run draws a history of pulls, idle periods and limit changes, with stalls and spurious wake-ups; a counter model bounds every upstream call and the fill level is compared at quiescence.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Seeded search over schedules and histories against a counting model.",
     probes=["idle-fill-checked"], faults=["slow-upstream", "spurious-wakeup"])

prop("P03", "Stopping or destroying a parallel chain always completes and leaves nothing",
     "Stopping a chain with parallel stages (limits of at least one) always returns, at whatever moment it is called, even when it is called twice, before any start, after the limits were changed, "
     "after the system refused to create a worker, or by the upstream itself; destroying or restarting a running stage is just as safe. "
     "Once stop has returned no upstream processing is running or ever begins again, no worker thread is left, waiting consumers have been released and later pulls do not block.",
     ["schedules", "histories"],
     "all interleavings of stop with workers, consumers and stalls; single, nested and mixed stages; repeated start and stop",
     "A lost wake-up or a leaked worker needs one particular interleaving of two threads; the suite's stop runs with an idle worker.",
     [PAR, "include/maec/audio_module.hpp"],
     [{"name": "stop flag, notification and join", "where": PAR + ": stop, start"}],
     ["return of stop", "threads alive", "upstream processing calls after stop"],
     ["sc_parallel"],
     "Each run draws a topology, a consumer on its own thread or not, the instant of the stop and the way to stop; a run in which no thread can continue is a deadlock, one that exceeds its step budget is a livelock.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Seeded search over schedules; deadlock and leak detection are exact for every explored schedule.",
     probes=["limit-changed-before-stop", "several-wait-at-stop", "destroyed-while-running", "start-while-running", "stop-before-start", "worker-refused"], faults=["slow-upstream", "spurious-wakeup", "thread-create-refused"])

prop("P04", "Restarting a parallel chain delivers only the new session's audio",
     "Buffers that were processed but not delivered when a parallel chain was stopped remain available, in order and complete, until it is started again. "
     "After a restart only buffers produced since that restart are delivered, starting with the first.",
     ["schedules", "histories"],
     "all sequences of start, pull, drain and stop, with the worker at any point when the stop arrives",
     "Whether a buffer of the old session survives depends on where the worker was when the stop arrived; the suite never restarts with buffers left.",
     [PAR], [{"name": "queue cleared on start, kept on stop", "where": PAR + ": start, stop"}],
     ["buffers delivered per session, fill level after stop"],
     ["sc_parallel"],
     "Each run draws one to four sessions with random pulls, idle periods, stops and partial drains over one or two stages in a row; every delivered buffer carries its session and number.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Seeded search over schedules and session histories.",
     probes=["drained-after-stop", "restart-with-leftovers"], faults=["slow-upstream", "spurious-wakeup"])

prop("P05", "Starting and stopping upstream modules never overlaps their processing",
     "When a chain with parallel stages is started or stopped, no module behind a parallel stage is processed before its own start has completed, "
     "while its start or stop is running, or after its stop has begun, whichever thread processes it.",
     ["schedules", "programs"],
     "all interleavings of start and stop with the workers, for every tree of parallel stages, mixers and ordinary modules",
     "The overlap exists only if the worker happens to be inside an upstream module when the controller reaches it; the suite uses modules that ignore start and stop.",
     [PAR, "include/maec/audio_module.hpp", "include/maec/module_mixer.hpp"],
     [{"name": "order of worker shutdown and upstream stop", "where": PAR + ": meta_start, meta_stop"}],
     ["start, stop and process calls of every upstream module"],
     ["sc_parallel"],
     "Each run draws a tree of parallel stages, mixers and modules that record their own start, stop and process calls, and one to three sessions.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Seeded search over schedules; the overlap check is exact for every explored schedule.",
     faults=["slow-upstream", "spurious-wakeup"])

prop("P06", "Fill level and limit can be used from any thread without corrupting anything",
     "Querying the fill level and querying or changing the read-ahead limit of a parallel stage from any number of threads, while it is being "
     "started, processed, pulled and stopped, is free of data races and memory errors and never damages, loses or reorders a buffer.",
     ["schedules", "programs"],
     "all interleavings of observer threads with worker, consumer and controller over several sessions",
     "Data races are invisible to a test that passes; they need an interleaving and a detector.",
     [PAR], [{"name": "locking of the queue and atomic limit", "where": PAR + ": size, max_size, run_thread, meta_process"}],
     ["every memory access of the code under test (happens-before race detection, heap bounds and lifetime)", "buffers delivered"],
     ["sc_parallel"],
     "Each run draws observer threads, a consumer thread, nested stages and sessions; every instrumented memory access is checked for a happens-before race and heap errors.",
     PAR_REAL, PAR_STUB, PAR_ASSUME,
     "Happens-before race detection on every explored schedule; misses only races on unexplored paths.",
     faults=["slow-upstream", "spurious-wakeup"])

WAV = "include/maec/io/wav.hpp"
WAVC = "src/io/wav.cpp"
MST = "include/maec/io/mstream.hpp"
MSTC = "src/io/mstream.cpp"
IO_REAL = ["WaveReader, WaveWriter, WaveSource and the integer/sample conversions they use",
           "CharIStream, CharOStream, FIStream, FOStream and libstdc++'s file streams on top of them"]
IO_STUB = ["the file system below open/read/write/lseek/close: an in-memory disk that fragments, fails, fills up, refuses and crashes", "no stubs inside the library"]
IO_ASSUME = ["the simulated disk keeps POSIX order of writes to one file: a crash keeps a prefix of the issued writes, the last one possibly torn",
             "16 bit and 8 bit integer files, the formats the library can decode"]

prop("P07", "Audio read from or recorded to WAV is exact, however it is cut up",
     "Reading a WAV file of 8 or 16 bits yields exactly its format and its samples in order, then silence, and reports the end exactly once all of it was delivered, whatever the chunk "
     "layout, block sizes and I/O fragmentation, also through a chain with a parallel stage, and also when a reader is reused. "
     "A recording has correct sizes once it is stopped and reads back as what was recorded, within one quantisation step.",
     ["inputs", "schedules", "histories"],
     "chunk orders, foreign, empty and odd-sized chunks, format extensions, sizes a recorder could not know, any split of data over chunks and blocks, short reads and interrupted calls below the streams",
     "The suite reads a few fixed files in one block size; chunk boundaries inside a frame, foreign chunks and short reads never occur.",
     [WAV, WAVC, MST, MSTC],
     [{"name": "chunk walk and block assembly", "where": WAVC + ": WaveReader::start, get_data"},
      {"name": "header written at start, sizes corrected at stop", "where": WAVC + ": WaveWriter"}],
     ["decoded blocks, format getters, done()", "bytes of the recorded file"],
     ["sc_wav"],
     "Each run generates a file or recording, a block size sequence and a fragmenting disk (or an in-memory stream), and compares every sample, format field and file byte with an independent encoder and decoder.",
     IO_REAL + PAR_REAL[:1], IO_STUB, IO_ASSUME,
     "Seeded search over file layouts, block sizes, I/O fragmentation and schedules against an independent model of the format.",
     probes=["own-stream", "chunk-before-format", "extended-format", "junk-between-data", "padded-data-chunk", "several-data-chunks", "open-ended-file", "reader-reused", "played-through-parallel-stage", "other-block-size-next-session"],
     faults=["short-read", "short-write"])

prop("P08", "A truncated or failing WAV file yields an exact prefix, then silence, and ends",
     "When a WAV file ends early, is truncated while being read, cannot be opened or fails with a read error, reading still terminates within a bounded number of blocks: "
     "what is delivered is an exact prefix of the audio followed by silence, every complete sample present in a truncated file is delivered, and the file is closed. "
     "The failure can be seen on the stream, and the same reader then plays the next file flawlessly.",
     ["fault_sequences", "inputs"],
     "truncation at every offset, read errors and refused opens at every point, truncation by another process between two blocks",
     "No test truncates or fails a file; what is left in a conversion buffer after a short read shows only then.",
     [WAV, WAVC, MST, MSTC],
     [{"name": "bad stream ends the reader", "where": WAVC + ": WaveReader::get_data"}, {"name": "failed read stops the stream", "where": MSTC + ": FIStream::read"}],
     ["decoded blocks after the fault, done(), stream state, open files"],
     ["sc_wav"],
     "Each run generates a file, the kind and the place of the failure and block sizes; delivered samples are compared with the prefix the fault left.",
     IO_REAL, IO_STUB, IO_ASSUME, "Seeded search over files and fault positions.",
     probes=["next-file-after-failure"], faults=["file-truncated", "read-error", "open-refused", "file-truncated-while-reading"])

prop("P09", "A damaged WAV file never crashes, hangs or exhausts memory",
     "Reading a WAV file with arbitrary damage (flipped, replaced, removed or inserted bytes in headers, sizes, format fields or data) ends after a bounded number of blocks without a crash, "
     "an exception, an access outside a buffer, or memory out of proportion to the file and one block, and every block has the requested number of frames with samples in range.",
     ["inputs", "fault_sequences"],
     "one to six damaged places in any generated file, biased to size and format fields and their extreme values; short reads below the streams",
     "Only undamaged files are in the suite; a zero block size or a 4 GB chunk needs a damaged header.",
     [WAV, WAVC, MSTC], [{"name": "header validation and chunk skipping", "where": WAVC + ": WaveReader::start"}],
     ["process state, allocation sizes, every memory access, number of blocks until done"],
     ["sc_wav"],
     "Each run damages a generated file and reads it to its end under heap bounds checking, an allocation limit and a step budget.",
     IO_REAL, IO_STUB, IO_ASSUME, "Seeded search over damage; memory errors and hangs are exact for every explored input.",
     faults=["file-damaged", "short-read"])

prop("P10", "A recorder over a failing disk reports it and leaves an exact prefix",
     "When the disk refuses data (full, write error, cannot be opened) at any point of a recording, the stream reports it as soon as the refusal happened while recording and at the latest when recording stops; "
     "a recording that met no failure never reports one. What is on disk is always an exact prefix of the recording, the file is closed, and the recorder can make the next recording correctly.",
     ["fault_sequences", "histories"],
     "disk full, write errors and refused opens after any number of bytes, short writes and interrupted calls, recordings of any shape, followed by another recording",
     "No test fails a write; buffering makes the failure surface far from its cause.",
     [WAV, WAVC, MST, MSTC], [{"name": "failed write stops the stream", "where": MSTC + ": FOStream::write"}, {"name": "sizes corrected at stop", "where": WAVC + ": WaveWriter::stop"}],
     ["stream and file state after every call", "bytes on disk"],
     ["sc_wav"],
     "Each run draws a recording, a fault and its position; every refusal by the disk must be visible, and the bytes on disk are compared with the recording.",
     IO_REAL, IO_STUB, IO_ASSUME, "Seeded search over recordings and fault positions.",
     probes=["failed-while-recording", "failed-at-stop", "recorded-again"], faults=["disk-full", "write-error", "open-refused", "short-write"])

prop("P11", "A crash while recording never makes a file read back as other audio",
     "If the process or machine dies at any point of a recording, also while it is being stopped, the file left on disk reads back as an exact prefix of what was recorded followed by silence: "
     "header bytes, leftovers of an older recording or anything else are never played as audio, and reading terminates.",
     ["crash_points"],
     "a crash at every write reaching the disk, the last write torn at any byte, over fresh files and replaced older recordings",
     "Tests only read files of recorders that were stopped.",
     [WAV, WAVC], [{"name": "order of header, data and size updates", "where": WAVC + ": WaveWriter::start, write_data, stop"}],
     ["bytes on disk at the crash, audio read back from them"],
     ["sc_wav"],
     "Each run draws a recording and freezes the disk at one write, possibly torn; the surviving bytes are compared with the recording and read back.",
     IO_REAL, IO_STUB, IO_ASSUME, "Seeded search over recordings and crash points.",
     probes=["crashed-during-stop"], faults=["crash-at-write", "torn-write"])

prop("P12", "Byte streams behave like the files and arrays they stand for",
     "Reads, writes, seeks, starts and stops on file streams and in-memory streams behave like the same operations on a plain byte array: reads return the bytes at the position and advance it, never touch memory beyond "
     "the requested or available bytes, and overwriting keeps the rest intact, whatever short or interrupted I/O happens below. The reported state always tells init, started, stopped and error apart, "
     "running past the end stops an input stream, a refused open is an error, and a stopped stream holds no open file.",
     ["histories", "fault_sequences"],
     "all sequences of read, write, seek, start and stop with any sizes; short, interrupted and refused calls below",
     "The suite writes and reads a fixed short string once.",
     [MST, MSTC], [{"name": "state machine and cursor", "where": MST + ": BaseMStream, CharIStream, CharOStream, BaseFStream"}],
     ["bytes, states and open files after every operation"],
     ["sc_wav"],
     "Each run draws an operation history; every result and state is compared with a byte-array model after every step, under heap bounds checking.",
     IO_REAL[1:], IO_STUB, IO_ASSUME[:1], "Seeded search over operation histories against a byte-array model.",
     probes=["read-past-end", "overwrite", "beyond-the-end"], faults=["short-read", "short-write", "open-refused"])

ALS = "include/maec/io/alsa_module.hpp"
ALSC = "src/io/alsa_module.cpp"
ALS_REAL = ["ALSASink, ALSABase, DeviceInfo, PeriodSink and the sample conversion they use", PAR_REAL[0]]
ALS_STUB = ["libasound and the sound card below it: a model with device hints, PCM states (open, setup, prepared, running, xrun, suspended, disconnected), ring buffer and a card that plays in simulated time"]
ALS_ASSUME = ["the model of libasound follows its documented contract (error codes, state transitions, partial writes); real drivers may deviate",
              "the chain delivers the channel count and the rate that the device was configured with"]

prop("P13", "Every sample reaches the sound card exactly once, whatever the card does",
     "Playing a chain on a sound card hands every produced sample to the card exactly once, in order and unchanged (as 16 bit value), whatever block sizes the chain produces and whatever the card does: "
     "partial or interrupted writes, underruns at any moment, suspend and resume. After stop everything handed over has been played, the device is closed, and the next session plays from its own start; "
     "a card that is unplugged neither blocks nor crashes the chain.",
     ["fault_sequences", "schedules", "histories"],
     "all sequences of partial writes, interruptions, underruns, suspends and unplugging at any device call; block sizes, period sizes, channel counts; slow sources directly or behind a parallel stage; repeated sessions",
     "There is no sound card in the test environment: none of this code is ever run by the suite.",
     [ALS, ALSC], [{"name": "write loop with recovery", "where": ALSC + ": ALSASink::process"}, {"name": "device configuration and drain", "where": ALSC + ": ALSABase::alsa_start, alsa_stop"}],
     ["values accepted and played by the card", "open device handles after stop"],
     ["sc_alsa"],
     "Each run draws a device, a block and period size, a source that may be too slow, and device faults; every value the card accepted is compared with the produced stream after every pull.",
     ALS_REAL, ALS_STUB, ALS_ASSUME, "Seeded search over device faults, timing and schedules on a model of the sound system.",
     probes=["several-channels", "underrun-recovered", "unplugged", "reconfigured", "large-size", "uneven-blocks"], faults=["short-device-write", "underrun", "device-suspended", "device-unplugged"])

prop("P14", "Sound devices can be listed, missing, busy or failing without damage or leak",
     "Listing, looking up, choosing, starting and stopping sound devices in any order never crashes, never keeps more than the one device of a running session open, leaves nothing open after stop and frees what it looked up, "
     "whatever the system answers: no devices, entries without name or description, devices that are busy, refuse to open or to be configured, or a list that cannot be obtained. "
     "A described device is the one asked for, with the format, sizes and limits the system states for it, and one that does not exist or cannot be opened is reported as unusable.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of look-ups, choices, starts, stops and blocks over any set of devices with any of them refusing",
     "There is no sound card in the test environment: none of this code is ever run by the suite.",
     [ALS, ALSC], [{"name": "device enumeration", "where": ALSC + ": get_device_by_id, get_device_by_name, create_device"}, {"name": "open and release", "where": ALSC + ": ALSASink::start, stop"}],
     ["device descriptions", "open handles, device lists and memory after every operation"],
     ["sc_alsa"],
     "Each run draws a set of devices and a history of operations; handles, lists and descriptions are compared with the set after every operation, memory at the end.",
     ALS_REAL[:1], ALS_STUB, ALS_ASSUME[:1], "Seeded search over device sets and operation histories.",
     probes=["devices-with-own-limits", "missing-device-looked-up", "nameless-device", "stop-without-start"], faults=["device-open-refused", "device-config-refused", "device-list-refused", "device-busy"])

CHR = "include/maec/chrono.hpp"
TIME_STUB = ["the clocks: simulated time that passes when a module stalls, and a wall clock that jumps; the kernel scheduler", "harness source modules", "no stubs inside the library"]

prop("P15", "Reported latency and times are exact and never depend on the wall clock",
     "A latency measuring stage reports exactly the time the stages behind it took, the time its audio lasts (frames, not samples, at the audio's rate), their difference, and the totals, averages, counts and elapsed time of all blocks since it was started or reset, "
     "for any block sizes, channel counts and sample rates, for sessions of any length, and whatever the wall clock does.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of blocks, stalls, idle periods, restarts and resets with wall-clock jumps at any moment; sessions beyond 2^31 samples; the stages behind it on their own thread or not",
     "The tests read the real clock and can only compare loosely; neither a clock jump nor a session of hours nor a stalled stage occurs.",
     ["include/maec/meta_audio.hpp", "src/meta_audio.cpp", CHR, "src/chrono.cpp"],
     [{"name": "measurement around the upstream call", "where": "src/meta_audio.cpp: LatencyModule::meta_process"}, {"name": "monotonic clock", "where": "src/chrono.cpp: get_time"}, {"name": "chain time from frames", "where": CHR + ": ChainTimer"}],
     ["reported times and counts after every block", "simulated clock"],
     ["sc_time"],
     "Each run draws blocks, stalls in simulated time, wall-clock jumps and resets; every reported number is compared with the simulated clock and a counting model after every block.",
     ["LatencyModule, Counter, ChainTimer, get_time and std::chrono above clock_gettime", PAR_REAL[0]], TIME_STUB,
     ["the audio keeps one sample rate and channel count within a measurement"],
     "Seeded search over histories in simulated time against an exact model.",
     probes=["behind-parallel-stage", "measurement-reset", "several-channels", "format-changed", "session-beyond-2^31-samples"], faults=["slow-upstream", "wall-clock-jump"])

prop("P16", "Envelopes follow the chain's time, not the clock, and never skip, repeat or hang",
     "A mono envelope (constant, switch, linear, exponential, or a chain of them) gives each frame exactly the value that belongs to the frame's position in the audio, however the audio is cut into blocks, however late or fast it is processed, "
     "at any position of a session, also one it is moved back to, and after stopping and continuing. In a chain of envelopes, also when envelopes are added to it while it plays, each one applies from its start to its end, "
     "the time before the first has the chain's start value, gaps and the time after the last hold the last end value, and playing never blocks or touches memory it does not own.",
     ["schedules", "histories", "inputs"],
     "all block sizes, stalls, wall-clock jumps and restarts; start and stop times that are no multiple of the frame duration; positions beyond 2^32 frames; directly and behind a parallel stage",
     "The tests play envelopes in blocks that line up with their times and within the first seconds.",
     ["include/maec/envelope.hpp", "src/envelope.cpp", CHR],
     [{"name": "envelope switch and chain timer", "where": "src/envelope.cpp: ChainEnvelope::process, next_envelope"}, {"name": "value from chain time", "where": "src/envelope.cpp: LinearRamp, ExponentialRamp, SetValue"}],
     ["every frame of every block", "chain time after every block"],
     ["sc_time"],
     "Each run draws envelopes with arbitrary times, block sizes, a position, stalls and clock jumps; every frame is compared with a closed formula of its position.",
     ["all envelope modules, ChainTimer, chain code", PAR_REAL[0]], TIME_STUB,
     ["the frame in which an envelope's end falls already belongs to what follows (fixed by the existing tests)", "outside of its own time a single ramp is unspecified"],
     "Seeded search over envelopes, block cuts and schedules against closed formulas.",
     probes=["chained-envelopes", "gap-between-envelopes", "before-the-first-envelope", "envelope-added-while-playing", "added-while-holding", "late-in-a-long-session", "lasts-beyond-2^32-frames", "stopped-and-continued", "moved-back", "large-size"], faults=["slow-upstream", "wall-clock-jump"])

CH_STUB = ["the kernel scheduler, futexes and clocks", "harness source modules that produce known audio in drawn block sizes and stall", "no stubs inside the library"]
MA = "src/meta_audio.cpp"

prop("P17", "Making blocks uniform neither loses, repeats nor moves a sample",
     "A stage that makes blocks uniform delivers exactly the stream it is fed, in order, with every channel in place, in blocks of exactly the requested number of frames, whatever block sizes (also empty ones) arrive, "
     "when the requested size changes between blocks, after stopping and continuing, and wherever worker threads are placed around it.",
     ["histories", "schedules", "inputs"],
     "all sequences of incoming block sizes, requested sizes, stops and restarts, channel counts; the stage and its upstream on worker threads or not",
     "The tests repeat one mono buffer at a few fixed sizes; remainders carried over many uneven blocks, several channels and sessions do not occur.",
     ["include/maec/meta_audio.hpp", MA], [{"name": "carried over remainder of the incoming block", "where": MA + ": UniformBuffer::process"}],
     ["every delivered block"], ["sc_chain"],
     "Each run draws incoming and requested block sizes, channels, threads, stalls and restarts; every delivered sample is compared with the stream.",
     ["UniformBuffer, AudioBuffer, chain code", PAR_REAL[0]], CH_STUB, PAR_ASSUME, "Seeded search over histories and schedules against the plain stream.",
     probes=["another-thread", "several-channels", "across-threads", "empty-blocks", "block-size-changed", "stopped-and-continued", "very-loud", "very-quiet"], faults=["slow-upstream"])

prop("P18", "Filtering a stream is seamless across blocks and clean across sessions",
     "Filtering by convolution gives, channel by channel, exactly the convolution of the whole stream since the chain was started with the filter's kernel, however the stream is cut into blocks (also empty ones and ones shorter than the kernel) "
     "and wherever worker threads are placed; a restarted filter takes nothing over from the session before and uses its new settings. Block sizes, channel count and sample rate pass through unchanged.",
     ["histories", "schedules", "inputs"],
     "all block sequences, kernels, restarts with changed kernels, channel counts; filter and upstream on worker threads or not",
     "No test runs a filter module at all.",
     ["include/maec/filter_module.hpp", "include/maec/dsp/conv.hpp"], [{"name": "overlap-add tail", "where": "include/maec/filter_module.hpp: BaseConvFilter::process, start"}],
     ["every delivered block"], ["sc_chain"],
     "Each run draws kernels, block sizes, channels, threads and sessions; every frame is compared with a direct convolution sum.",
     ["BaseConvFilter, SincFilter, input_conv, kernel generation, chain code", PAR_REAL[0]], CH_STUB, PAR_ASSUME + ["the kernel values themselves are taken from the library for the sinc filter"],
     "Seeded search over block cuts, sessions and schedules against a direct sum.",
     probes=["another-thread", "block-shorter-than-kernel", "filter-restarted", "several-channels", "across-threads", "very-loud", "very-quiet"], faults=["slow-upstream"])

OSC = "src/fund_oscillator.cpp"
prop("P19", "Oscillators run on without a jump across blocks, threads and pauses",
     "The audio of a sine, square, sawtooth or triangle oscillator, with a fixed frequency or one that another chain controls frame by frame, is one continuous wave: frame n has the value of the position reached after n frames, the same on all channels, "
     "whatever the block sizes, however slow either side is, wherever worker threads are placed, at any starting phase, and after stopping and continuing.",
     ["histories", "schedules", "configurations"],
     "all block sizes and changes of them, stops and restarts, channel counts, frequencies, controls with and without a worker thread",
     "The tests compare the first mono blocks of a few oscillators.",
     [OSC, "include/maec/base_oscillator.hpp", "include/maec/module_param.hpp"], [{"name": "phase carried from block to block", "where": OSC}, {"name": "control chain of a parameter", "where": "src/module_param.cpp: ModuleParam::get, conf_mod"}],
     ["every delivered block"], ["sc_chain"],
     "Each run draws an oscillator, its frequency or control chain, block sizes, channels, threads, stalls and pauses; every frame is compared with the closed form at its position.",
     ["all eight oscillators, ModuleParam, ParamSource, ConstModule, chain code", PAR_REAL[0]], CH_STUB, PAR_ASSUME + ["the frequency of an oscillator with a fixed frequency is not changed while it runs"],
     "Seeded search over block cuts, pauses and schedules against closed forms.",
     probes=["another-thread", "several-channels", "across-threads", "moving-frequency", "block-size-changed", "stopped-and-continued", "played-for-hours"], faults=["slow-upstream", "slow-consumer"])

MIX = "src/module_mixer.cpp"
prop("P20", "A mix is the exact sum of its inputs' blocks, each taken once per cycle",
     "Every block a mixer delivers is the sum of the corresponding blocks of all its inputs, each input being asked exactly once per block; inputs with other block sizes are padded with silence or cut to the chain's block size, "
     "also with nested mixers, inputs that have declared themselves done, inputs on worker threads, several blocks per cycle and repeated sessions. Whoever asks a fan-out for the current block gets an identical copy of it.",
     ["schedules", "programs", "histories"],
     "all trees of mixers with inputs of any block size, channel count and slowness, each input on its own thread or not, over repeated sessions",
     "The tests add two constants once.",
     [MIX, "include/maec/module_mixer.hpp", "src/sink_module.cpp"], [{"name": "one block per input and cycle", "where": MIX + ": ModuleMixDown::meta_process, process"}, {"name": "copy per output", "where": MIX + ": ModuleMixUp::get_buffer"}],
     ["every delivered block", "processing calls of every input"], ["sc_chain"],
     "Each run draws a tree of mixers and inputs, threads, stalls, blocks per cycle and sessions; every sample is compared with the sum of numbered blocks.",
     ["ModuleMixDown, ModuleMixUp, PeriodSink, chain code", PAR_REAL[0]], CH_STUB, PAR_ASSUME + ["all inputs of a mixer have the same channel count", "a fan-out is pulled by one output; others ask for copies"],
     "Seeded search over trees and schedules against exact sums.",
     probes=["another-thread", "nested-mixers", "uneven-inputs", "inputs-that-are-done", "fan-out", "across-threads", "several-channels", "mixer-restarted", "very-loud", "very-quiet"], faults=["slow-upstream"])

prop("P21", "Starting, stopping, finishing and syncing reach every module exactly once",
     "Each start, stop and sync of a chain reaches every module exactly once, through stages, mixers and parameter chains, start and stop from the source towards the sink and sync the other way; afterwards every module is in that state and "
     "agrees with the chain on block size, channels and sample rate. The number of modules in the chain is exact after every sync, and the number of finished modules is exact whenever the chain is at rest: "
     "zero after a start, and counting every module that declared itself done, also when several do so at the same time on different worker threads.",
     ["programs", "histories", "schedules"],
     "all trees of stages, mixers, parameter chains and ordinary modules; repeated syncs, sessions and finish requests; modules that are done at any block on any thread",
     "The tests run each call once over two or three modules on one thread.",
     ["include/maec/audio_module.hpp", "include/maec/base_module.hpp", "src/base_module.cpp", "include/maec/sink_module.hpp", "include/maec/module_param.hpp", MIX, PAR],
     [{"name": "recursion over the chain", "where": "include/maec/audio_module.hpp: meta_start, meta_stop, meta_finish, meta_info_sync"}, {"name": "count of finished modules", "where": "src/base_module.cpp: BaseModule::done"}],
     ["calls and state of every module", "counts of the chain"], ["sc_chain"],
     "Each run draws a tree of recording modules, sessions, syncs, finish requests and modules that end on their own; calls, order, states and counts are compared after every operation.",
     ["AudioModule, SourceModule, SinkModule, ParamModule, ParamSource, ModuleParam, ModuleMixDown, chain code", PAR_REAL[0]], CH_STUB,
     PAR_ASSUME + ["finish is requested while no worker is processing", "modules call the library's own start, stop and finish as documented"],
     "Seeded search over trees, histories and schedules with exact bookkeeping; lost counts are also seen as data races.",
     probes=["another-thread", "parameters", "mixers", "across-threads", "synced-again", "modules-done-on-their-own", "asked-to-finish", "stopped-twice", "stopped-before-any-start", "started-again-without-a-stop"], faults=["slow-upstream"])

prop("P22", "Parameters of a module follow what they were set to, block by block",
     "A parameter yields exactly one block of values for every block its module works on: the constant it was set to or the values its own chain of modules produces, in order, for every channel, without gaps or repeats. "
     "Setting another constant or attaching another chain takes effect with the next block, also while the chain plays, after the block size was changed, in repeated sessions and when modules or parameter chains run on worker threads.",
     ["schedules", "programs", "histories"],
     "all chains of modules with parameters, whose values are constants or chains of any depth, exchanged at any moment between two blocks",
     "The tests set each kind of parameter once, before a single block, on one thread.",
     ["include/maec/module_param.hpp", "src/module_param.cpp"],
     [{"name": "one block of values per block", "where": "include/maec/module_param.hpp: ModuleParam::get"}, {"name": "constant exchanged while running", "where": "src/module_param.cpp: ModuleParam::set_constant"}],
     ["every block of values a module sees", "every delivered block"], ["sc_chain"],
     "Each run draws modules with parameters, constants and chains of sources, stages and workers for them, and a history of pulls, exchanges, block size changes and sessions; every value is compared with the sequence that was set.",
     ["ModuleParam, ParamModule, ParamSource, ParamSink, ConstModule, chain code", PAR_REAL[0]], CH_STUB,
     PAR_ASSUME + ["parameters are set between two blocks, by the thread that processes the module or while it is at rest"],
     "Seeded search over histories and schedules with exact values.",
     probes=["another-thread", "across-threads", "block-size-changed", "chain-while-playing", "constant-while-playing", "control-on-worker", "restarted", "several-channels"],
     faults=["slow-upstream", "slow-consumer", "spurious-wakeup"])

prop("P23", "A whole chain plays exactly what its parts make, from any source to any end",
     "Whatever a chain is put together from - files, generators, oscillators and repeated buffers through amplitude, controlled, filter, measuring and re-buffering stages, mixers of whole sub-chains and worker threads, to a reader, a recording or a sound card - what arrives at its end is "
     "exactly what the parts make of each other sample by sample, on every channel, from the first frame of every session and without gaps. This holds for every thread schedule, whichever threads use the chain in turn, and while the disk and the card deliver short, interrupted, truncated or suspended operations; afterwards no file, device or thread is left over.",
     ["schedules", "programs", "configurations", "fault_sequences"],
     "all trees of up to three levels of the parts above, all three ends, one to three channels, one to three sessions, all schedules and stalls, fragmented and interrupted I/O, underruns",
     "The tests check modules one by one; nothing plays a chain of more than three modules, on threads, or to a file or card.",
     ["include/maec/audio_module.hpp", "src/sink_module.cpp", "include/maec/amp_module.hpp", "include/maec/filter_module.hpp", "include/maec/meta_audio.hpp", "src/meta_audio.cpp", "include/maec/module_mixer.hpp", "src/io/wav.cpp", "src/io/alsa_module.cpp", PAR],
     [{"name": "blocks handed from module to module", "where": "include/maec/audio_module.hpp: meta_process"}, {"name": "block size agreed over the chain", "where": "include/maec/audio_module.hpp: meta_info_sync"}],
     ["blocks at the reader", "bytes of the recording", "samples the card accepted", "open files, devices and live threads after stop"], ["sc_full"],
     "Each run draws a tree of parts, an end, sessions and faults; a composed sample-by-sample reference predicts everything that arrives.",
     ["all modules named, ModuleParam, ParamModule, MultiMix, WaveSource, WaveWriter, FIStream, FOStream, ALSASink", PAR_REAL[0]],
     [PAR_STUB[0], "disk below fstream/read/write: simulated files with short, interrupted and fragmented transfers", "libasound: simulated card with its own clock, underruns, suspends and partial writes", "harness source of numbered blocks, reader that collects blocks"],
     PAR_ASSUME + ["stages with memory between sessions are only played for one session", "a recording or card is exact to one step of 16 bits"],
     "Seeded search over whole chains, schedules and faults with a sample-exact reference.",
     probes=["another-thread", "worker", "mixer", "filter", "wave-file", "repeated-buffer", "oscillator", "parameter", "rebuffered", "recorded", "played-on-card", "played-again", "several-channels"],
     faults=["slow-upstream", "slow-consumer", "spurious-wakeup", "short-read", "read-interrupted", "short-write", "write-interrupted", "file-truncated", "underrun", "short-device-write", "device-suspended"])

prop("P24", "A chain that keeps playing needs no more memory, and returns all of it",
     "However long a chain plays and however often it is stopped and started again, the memory it uses at rest does not grow, whatever parts, worker threads and ends it is made of. "
     "When its modules are destroyed, all of the memory they took is released.",
     ["schedules", "programs", "histories"],
     "all chains of P23 that can be restarted; sessions and blocks in any number; all schedules",
     "The tests process a handful of blocks and never look at memory.",
     ["include/maec/audio_module.hpp", "src/audio_buffer.cpp", "include/maec/amp_module.hpp", "src/meta_audio.cpp", "src/io/alsa_module.cpp", "src/io/wav.cpp", PAR],
     [{"name": "blocks are moved, not kept", "where": "include/maec/audio_module.hpp: get_buffer, set_buffer"}, {"name": "hand-over queue", "where": PAR + ": meta_process, start"}],
     ["bytes held on the simulated heap at rest and at the end"], ["sc_full"],
     "Each run plays a drawn chain for several sessions and compares the simulated heap at rest after few and after many blocks, in the first and in later sessions, and after everything was destroyed.",
     ["all modules of P23", PAR_REAL[0]],
     [PAR_STUB[0], "allocator: simulated heap that accounts for every byte", "disk and card as in P23"],
     PAR_ASSUME + ["the queue of a worker may keep up to three pages of its own"],
     "Seeded search over chains, histories and schedules with exact accounting of the heap.",
     probes=["restarted", "long-session", "with-workers", "wave-file", "filter", "mixer", "recorded", "played-on-card", "constant-changed", "synced-again", "limit-set", "device-looked-up"], faults=["slow-upstream", "spurious-wakeup", "underrun"])

prop("P25", "Chains composed at compile time behave exactly like linked ones",
     "A chain whose parts are nested in each other at compile time behaves exactly like a chain of the same parts linked at run time, also when parts of both kinds are mixed and when worker threads run either of them: "
     "the same blocks and samples in every session, every part started, stopped, finished, synced and processed as often, with the same state and audio format, and the same numbers of modules and finished modules.",
     ["schedules", "programs", "histories"],
     "static chains of scaling, adding, filtering, marking, re-buffering, mixing and worker stages, standing alone, in front of, behind and inside linked ones, moved into place or built there; all block sizes, channel counts, rates, sessions and schedules",
     "The tests play one static chain of two modules for one block, without threads, filters, mixers or a second session.",
     ["include/maec/audio_module.hpp", "include/maec/amp_module.hpp", "include/maec/filter_module.hpp", "include/maec/sink_module.hpp", "include/maec/source_module.hpp"],
     [{"name": "compile-time composition", "where": "include/maec/audio_module.hpp: backward, meta_process, meta_info_sync, link_static"}],
     ["every sample, block size, state, format and count of both chains"], ["sc_static"],
     "Each run plays one drawn static chain and the linked chain of the same parts with the same plan of sessions, pulls and syncs under different schedules, and compares everything that can be observed of them.",
     ["AudioModule and SinkModule with static and dynamic backward modules, AmplitudeScale, AmplitudeAdd, SincFilter, UniformBuffer, ModuleMixDown", PAR_REAL[0]],
     [PAR_STUB[0], "harness source of known samples and a stage that counts what happens to it"],
     PAR_ASSUME, "Seeded search over compositions, histories and schedules against the linked chain as the reference (which P17 to P23 hold against models of their own).",
     probes=["another-thread", "worker", "filter", "mixer", "rebuffered", "inside-a-linked-chain", "on-a-worker", "moved-into-place", "moved-from-another-chain", "played-again", "several-channels"], faults=["slow-upstream", "spurious-wakeup"])

prop("P26", "A rewired chain plays exactly what it is now made of",
     "A chain that is not playing can be taken apart and put together differently - parts inserted, removed, replaced, exchanged, added to a mix, given to another parameter or put behind another end - and after the next sync "
     "it plays exactly what it is then made of, from the first frame, with the number of modules and the audio format of its new place. Parts that no longer belong to it are not called any more and can be destroyed in any order.",
     ["histories", "schedules", "programs"],
     "up to six sessions with up to three changes between them on trees of up to four levels of stages, filters, mixers, meters, parameters and workers; all block sizes, channels, rates and schedules; parts kept aside or destroyed at once",
     "The tests link every chain once and never destroy a part of it.",
     ["include/maec/audio_module.hpp", "include/maec/base_module.hpp", "src/module_mixer.cpp", "include/maec/module_param.hpp", "src/module_param.cpp", "include/maec/sink_module.hpp", PAR],
     [{"name": "who is in front of whom", "where": "include/maec/audio_module.hpp: link, info_sync; src/module_mixer.cpp: link"}, {"name": "chain information comes from the end", "where": "include/maec/audio_module.hpp: info_sync; include/maec/sink_module.hpp"}],
     ["every sample", "calls every part received", "chain numbers and formats", "heap accesses to destroyed parts"], ["sc_rewire"],
     "Each run draws a tree of parts and a history of changes and sessions; a model of the current tree predicts every sample and every call, and the simulated heap finds any use of a part that is gone.",
     ["AudioModule, SinkModule, AmplitudeScale, AmplitudeAdd, BaseConvFilter, LatencyModule, ModuleMixDown, ModuleParam, ParamModule", PAR_REAL[0]],
     [PAR_STUB[0], "harness source of numbered frames; start, stop, sync and process are recorded around the real ones"],
     PAR_ASSUME + ["a changed chain is synced before it is started", "stages that keep audio between sessions (re-buffering) are not moved"],
     "Seeded search over histories of changes and schedules against a model of the tree.",
     probes=["another-thread", "worker", "inserted", "removed", "replaced", "exchanged", "input-added", "moved-to-another-end", "control-exchanged", "taken-out-and-back", "kept-aside", "destroyed-after-removal", "played-again", "several-channels"],
     faults=["slow-upstream", "slow-consumer", "spurious-wakeup"])

prop("P27", "A failure in a chain reaches its user and leaves nothing behind",
     "When a part of a chain throws, or an allocation fails, while the thread that uses the chain starts it or pulls a block from it, the failure reaches that thread as an exception and everything delivered before is exact and complete. "
     "The chain can then still be stopped, after which no file, sound card or worker thread is left open or running, and the next session plays exactly as if nothing had happened. When its parts are destroyed, with or without that stop, all of their memory is released.",
     ["fault_sequences", "schedules", "histories"],
     "up to five sessions, each flawless, with one part that throws at its start or at any block, or with any one allocation failing; sources, stages, filters, mixers of sub-chains, WAV files, readers, recordings and cards; with worker threads only failures on the user's own thread",
     "No test makes an allocation or a part fail.",
     ["include/maec/audio_module.hpp", "include/maec/sink_module.hpp", "src/module_mixer.cpp", "include/maec/filter_module.hpp", "src/io/wav.cpp", "src/io/alsa_module.cpp", "src/io/mstream.cpp", PAR],
     [{"name": "a pull that ends early", "where": "include/maec/audio_module.hpp: meta_process; src/module_mixer.cpp: meta_process"}, {"name": "a start that ends early", "where": "include/maec/audio_module.hpp: meta_start; src/io/alsa_module.cpp: start; src/io/wav.cpp: start"}],
     ["exceptions that arrive", "every sample before and after the failure", "files, card handles, threads and bytes of memory at rest"], ["sc_full"],
     "Each run draws a chain of P23 with parts that may throw and a history of sessions; one allocation or one part fails at a drawn moment, and the sessions after it are compared sample by sample with the drawn parts.",
     ["all modules of P23 except re-buffering and oscillators", PAR_REAL[0]],
     [PAR_STUB[0], "allocator: simulated heap that can refuse any one allocation", "disk and card as in P23"],
     PAR_ASSUME + ["a failure on a worker's own thread ends the process and is not made", "what a chain delivers between a failed block and the next stop is open", "a card is always stopped, not only destroyed"],
     "Seeded search over chains, failing moments and schedules against the composed reference.",
     probes=["bad-alloc-arrived", "throw-arrived", "failed-start", "played-after-failure", "pulled-after-failure", "destroyed-after-failure", "source-throws", "source-throws-at-start", "stage-throws", "stage-throws-at-start", "with-workers", "recorded", "played-on-card", "mixer", "filter", "wave-file"],
     faults=["alloc-failure", "part-throws", "slow-upstream", "spurious-wakeup", "underrun", "short-device-write"])

prop("P28", "Chains that share nothing do not affect each other",
     "Several chains, recordings or computations that share no object can be used at the same time by different threads, or in turns by one, and each gives exactly the samples, files, card output and numbers it gives alone, "
     "whatever the others do at that moment or have done before. Using separate objects from separate threads is never a data race.",
     ["schedules", "histories", "fault_sequences"],
     "two or three complete chains of P23, each with its own files and card, or two to six tasks (oscillators, filters, mixers, envelopes, recordings in memory, re-buffering, kernels, windows, convolutions, transforms, conversions) done by two or three threads; all schedules, orders and formats",
     "No test uses two chains at once.",
     ["include/maec/audio_module.hpp", "include/maec/filter_module.hpp", "include/maec/dsp/conv.hpp", "include/maec/dsp/kernel.hpp", "src/dsp/window.cpp", "src/fund_oscillator.cpp", "src/envelope.cpp", "src/module_mixer.cpp", "src/io/wav.cpp", "src/io/alsa_module.cpp", "src/audio_buffer.cpp", PAR],
     [{"name": "state belongs to objects", "where": "include/maec/base_module.hpp: BaseModule; include/maec/filter_module.hpp: BaseConvFilter; src/fund_oscillator.cpp"}, {"name": "no state in functions", "where": "src/dsp/window.cpp; include/maec/dsp/kernel.hpp; src/audio_buffer.cpp"}],
     ["every sample, byte and code", "unordered accesses to the same memory", "files, handles and threads at rest"], ["sc_full", "sc_apart"],
     "Each run draws chains or tasks that share nothing; chains are compared with the composed reference of their own parts, tasks with what the same task gave alone, bit by bit, while the scheduler interleaves them and the race detector watches every access.",
     ["all modules of P23, all oscillators, SincFilter, envelopes, convolution, transform, window and kernel functions, conversions", PAR_REAL[0]],
     [PAR_STUB[0], "disk and card as in P23"],
     PAR_ASSUME + ["fftw's planner is not used from several threads (fftw forbids it)"],
     "Seeded search over chains, tasks, schedules and orders against the composed reference and against the result alone.",
     probes=["another-thread", "at-once", "in-turns", "after-other-work", "work-at-once", "worker", "recorded", "played-on-card", "mixer", "filter", "wave-file", "oscillator", "parameter"],
     faults=["slow-upstream", "slow-consumer", "spurious-wakeup", "underrun", "short-device-write"])

prop("P29", "Parts work at the same time, and nobody waits for work needlessly",
     "Parts separated by worker threads work at the same time, also the inputs of a mix and several workers in a row, so every block is there as early as the parts' own work and the read-ahead limits allow, and a block that is ready is delivered without waiting for any upstream work. "
     "Starting a stopped chain, and asking for or setting the fill level and the limit, never wait for upstream work either; stopping waits at most for the blocks that are being worked on.",
     ["schedules", "histories", "configurations"],
     "chains of up to four stages in a row, also behind each input of a mixer, with up to five workers of limits up to 60; parts whose work takes any time, also in bursts; consumers of any pace; up to three sessions of up to 150 blocks; all schedules, with a thread that asks and sets all the while",
     "Tests only look at what arrives, and real time is too inexact to tell when.",
     [PAR, "include/maec/audio_module.hpp", "src/module_mixer.cpp"],
     [{"name": "no upstream work while others are kept out", "where": PAR + ": run_thread, meta_process, size, max_size"}, {"name": "refill as soon as there is room", "where": PAR + ": run_thread, meta_process"}, {"name": "stop waits for the current block only", "where": PAR + ": stop"}],
     ["moment every block arrives", "moments start, stop and queries return", "parts at work at that moment"], ["sc_overlap"],
     "Simulated time passes only while every thread waits or works, so the moment of every delivery follows from the cost of each part by the max-plus recurrence of a pipeline with bounded queues; each run draws a tree of parts with costs and compares every moment with that model.",
     PAR_REAL, [PAR_STUB[0], "harness parts whose work takes simulated time"],
     PAR_ASSUME + ["computing takes no simulated time, only the parts' drawn work does", "one millisecond per block is tolerated (work takes 10 ms and more)"],
     "Seeded search over chains, costs, paces and schedules against a max-plus timing model.",
     probes=["asked-while-working", "mixed", "ready-when-asked", "several-workers", "stopped-while-working", "waited-for-the-slowest"],
     faults=["spurious-wakeup"])

prop("P30", "Playback on a sound card has no gaps while the chain keeps up",
     "As long as every block is there before the card has played what it was given, a chain that plays on a sound card is heard without a gap: in each session the card starts with the first block and neither runs dry nor is stopped or started over until the chain is stopped. "
     "Whatever is ready early fills the card's buffer up to the size it was configured with, so that blocks that take longer now and then, a busy application, and interrupted or partial writes are bridged. Everything that was handed over is heard.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "cards of two to six periods of 20 to 1000 frames; chains of up to four stages in a row, also behind each input of a mixer, with up to five workers; parts of any cost, also in bursts; pauses of the application between cycles; up to three sessions of up to 150 cycles; all schedules",
     "Tests have no sound card, and real time is too inexact to tell why a card ran dry.",
     ["src/io/alsa_module.cpp", "include/maec/io/alsa_module.hpp", "src/sink_module.cpp", PAR],
     [{"name": "hand over to the card", "where": "src/io/alsa_module.cpp: ALSASink::process"}, {"name": "set up of the card", "where": "src/io/alsa_module.cpp: alsa_start, info_sync"}, {"name": "cycle of blocks", "where": "src/sink_module.cpp: PeriodSink::meta_process"}],
     ["times the card was set going and ran dry", "frames handed over and heard"], ["sc_overlap"],
     "Each run draws a chain with costs and a plan of pauses, finds with the max-plus model of the pipeline and the card's buffer for how many cycles everything is in time by at least a quarter of a block, and plays that many: the card must not run dry and must be set going once.",
     ["ALSASink, ALSABase, PeriodSink", PAR_REAL[0], "ModuleMixDown"], ["libasound: simulated card that consumes frames in simulated time", PAR_STUB[0], "harness parts whose work takes simulated time"],
     PAR_ASSUME + ["computing takes no simulated time, only the parts' drawn work does", "the card starts with the first frames it gets (the default of ALSA)"],
     "Seeded search over chains, costs, pauses and schedules against a max-plus timing model of pipeline and card.",
     probes=["buffer-filled", "busy-application", "late-block-bridged", "long-play", "only-in-time-in-parallel", "several-workers"],
     faults=["spurious-wakeup", "write-interrupted", "short-device-write"])

DSP_NA = "pure function of its arguments: no thread, clock, I/O, fault or stored history that a schedule or fault could change"

na("N01", "Fourier transforms agree with their definition and invert exactly",
   "Every forward transform the library offers gives the discrete Fourier transform of its input, and the matching inverse gives the input back up to rounding, for every length it accepts.",
   ["inputs"], "all lengths and values", "Tests compare a few fixed signals.",
   ["include/maec/dsp/ft.hpp", "src/dsp/ft.cpp"], [{"name": "transforms", "where": "include/maec/dsp/ft.hpp"}],
   "A transform is a " + DSP_NA + "; comparing it with a naive transform would be input generation, not simulation.")
na("N02", "All convolution algorithms give the same result",
   "Direct input-side, output-side and transform based convolution of the same signal and kernel give the same output up to rounding, for all lengths.",
   ["inputs"], "all signals and kernels", "Tests compare a few fixed signals.",
   ["include/maec/dsp/conv.hpp", "src/dsp/conv.cpp"], [{"name": "convolutions", "where": "include/maec/dsp/conv.hpp"}],
   "A convolution is a " + DSP_NA + ". The streaming filter that carries state from block to block and session to session is claimed as P18.")
na("N03", "Windows and filter kernels have the shape they are designed for",
   "Generated windows and windowed-sinc kernels are symmetric, have unit gain where they pass, and attenuate where they block.",
   ["inputs"], "all lengths and cut-off frequencies", "Tests compare a few fixed kernels.",
   ["include/maec/dsp/kernel.hpp", "include/maec/dsp/window.hpp", "src/dsp/kernel.cpp", "src/dsp/window.cpp"], [{"name": "kernel generation", "where": "src/dsp/kernel.cpp"}],
   "Kernel generation is a " + DSP_NA + "; band filters are unfinished in the library.")
na("N04", "Recursive filters follow their difference equation",
   "The output of a recursive filter satisfies the difference equation given by its coefficients for every input sequence.",
   ["inputs"], "all coefficients and inputs", "Tests compare a few fixed responses.",
   ["include/maec/dsp/iir.hpp"], [{"name": "recursion", "where": "include/maec/dsp/iir.hpp: iir_recursive_single"}],
   "The recursive filters are not part of any module or chain: a single caller feeds one value after the other, so each output is a " + DSP_NA + ".")
na("N05", "Buffer iterators visit every sample of every layout exactly once",
   "Iterating over a buffer by channel or by frame, forwards or backwards, visits each sample once, at the position the layout defines.",
   ["inputs"], "all sizes and channel counts", "Tests use one or two small buffers.",
   ["include/maec/dsp/buffer.hpp", "include/maec/audio_buffer.hpp"], [{"name": "iterators", "where": "include/maec/dsp/buffer.hpp"}],
   "Iterator arithmetic is a " + DSP_NA + "; the accesses chains make through iterators run under the simulator's bounds checking in P01 to P29.")
na("N06", "Sample conversions are monotonic, saturate and round-trip",
   "Converting samples between floating point and integer formats is monotonic, clips at full scale and round-trips within one quantisation step.",
   ["inputs"], "all sample values and formats", "Tests convert a few values.",
   ["include/maec/utils.hpp", "include/maec/audio_buffer.hpp"], [{"name": "conversions", "where": "src/audio_buffer.cpp: mf_int16, int16_mf"}],
   "A conversion is a " + DSP_NA + "; the conversions on the way to files and cards are covered end to end by P07, P13 and P23.")
na("N07", "Matrix products are correct for every shape",
   "The matrix multiplication helpers give the product of their arguments for every compatible pair of shapes.",
   ["inputs"], "all shapes and values", "Tests multiply a few fixed matrices.",
   ["include/maec/dsp/matrix.hpp"], [{"name": "products", "where": "include/maec/dsp/matrix.hpp"}],
   "A product is a " + DSP_NA + ".")
