"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":"state the property depends on","where":files[0]} for x in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The picture on the player's screen is exactly the picture the encoder believes",
"After the player has executed any prefix of a transcoded movie, the display memory of the simulated Apple II (main bank, and auxiliary bank in double-hi-res) is byte-for-byte the screen the encoder had in its own model when it produced that prefix, for any input pictures, audio, display mode, palette and network schedule. Nothing the encoder emits (including filler operations when there is nothing left to draw, and switches between the two memory banks) may change the real screen without the encoder's model changing identically, or the reverse.",
["inputs","schedules","histories"],"every movie (frames, audio, mode, palette, size limit) and every delivery schedule of its bytes to the player",
"The encoder keeps a model of a machine it never sees; the two only meet when a real stream is executed by the real player binary, which no test does, and divergence depends on the whole history of stores and bank switches.",
["transcoder/movie.py","transcoder/video.py","transcoder/screen.py","transcoder/opcodes.py","transcoder/machine.py","player/main.s"],
[("encoder applies each store to its own screen model","transcoder/video.py Video._index_changes"),("operation serialisation and bank flip at each 2 KB boundary","transcoder/movie.py Movie.emit_stream"),("player opcodes storing into display pages","player/main.s op_tick_*, op_ack")],
["encoder main/aux memory maps and pixel map","Apple II display memory, 80STORE/PAGE2 switches"],["display memory after every executed operation"])

p("C02","Every audio sample becomes one speaker pulse, in order, of the right width",
"The player emits exactly one speaker pulse per decoded (mono, normalised) audio sample of the movie, in order, none lost, repeated or invented, and the pulse width is the neutral 34 cycles plus 2 cycles per level of the sample scaled to 16 levels, truncated toward zero and clipped to -15..+16 (hardware tolerance one cycle). The result does not depend on how the decoder happens to split the samples into blocks (apart from the edge effects of the resampler where the sample rate has to be converted), and silence is neutral with any normalisation.",
["inputs","schedules"],"every decoded audio signal, channel count, normalisation and split of it into decoder blocks, and every network schedule during playback",
"The tests never run the audio path at all (it needs a decoder) and never execute a player opcode; loss or duplication only shows in the composition decoder blocks -> samples -> opcodes -> executed toggles.",
["transcoder/audio.py","transcoder/movie.py","transcoder/opcodes.py","player/main.s"],
[("block-wise decoding, normalisation, quantisation","transcoder/audio.py Audio.audio_stream/_decode/_normalization"),("sample to duty cycle opcode","transcoder/movie.py Movie.encode"),("pulse generation","player/main.s op_tick_*")],
["decoder block boundaries"],["intervals between accesses to the speaker switch"])

p("C03","The player reads every byte once, in order, and never ahead of the network",
"Whatever the pattern of packet loss, delay, reordering and stalls, the player consumes the bytes of the stream exactly once and in order, never reads a byte that has not arrived, and returns buffer space to the network only for bytes it has finished reading. The operation sequence it executes is exactly the sequence the transcoder emitted, through any number of wrap-arounds of the network card's buffer and pointers.",
["schedules","fault_sequences","inputs"],"every stream and every delivery schedule and fault pattern on the link",
"It is a protocol between a byte-counting transcoder and a byte-counting 6502 program around a ring buffer; nothing in the test suite runs either end against a network.",
["player/main.s","transcoder/movie.py","transcoder/opcodes.py"],
[("2 KB flow control and pointer restore","player/main.s checkrecv/recv/op_ack"),("acknowledge operation placed at the end of every 2 KB","transcoder/movie.py Movie.emit_stream")],
["W5100 receive ring, RX_RD pointer, address pointer"],["W5100 data port reads, RECV commands, executed opcode trace"])

p("C04","Playback always reaches the end: no stall pattern wedges player and server",
"For every finite movie, once network faults stop, the player finishes the whole stream and reaches its end-of-video state within a bounded time of the stream's nominal duration, and the server has closed that connection and accepts the next client. No combination of zero windows, lost window updates, retransmissions, pauses and stalls leaves player and server waiting for each other.",
["schedules","fault_sequences"],"every finite stream, every finite fault sequence on link, server and player",
"Liveness of a two-party flow-control loop under faults; a test can only sample one delivery schedule and here samples none.",
["player/main.s","server/server.py","transcoder/movie.py"],
[("wait for a full 2 KB before dispatching","player/main.s checkrecv"),("final block padded to 2 KB","transcoder/movie.py Movie.done"),("blocking send of the whole file","server/server.py main")],
["TCP windows, receive ring fill"],["time of end-of-video, server accept state"])

p("C05","Playback keeps a constant 73-cycle cadence whatever the content",
"While received data is available, every audio/video operation of a transcoded stream takes exactly 73 processor cycles from its first speaker toggle to the next operation's, for every pulse width, display page and store pattern, and every 2 KB buffer hand-over costs exactly two such periods, each played as a neutral speaker pulse (toggles 34 and 39 cycles apart). Content, bank switches and the position in the network buffer never change the tempo. On a network that keeps up, the server has every buffer of a movie of any length ready when the player comes to it.",
["inputs","histories","schedules"],"every operation sequence a movie can contain and every delivery schedule that keeps the buffer filled",
"1024 generated code variants times their successors and buffer positions; no test executes any of them.",
["player/main.s","transcoder/opcodes.py","transcoder/movie.py"],
[("cycle-counted opcodes","player/main.s op_tick_* macros"),("two-period slow path","player/main.s op_ack/checkrecv/recv")],
["CPU cycle counter"],["cycle stamps of speaker accesses"])

p("C06","Connection set-up survives transient failures and gives up cleanly",
"The player connects to the configured server address and port from its configured address, retries after each refused, reset or timed-out attempt, and plays normally if any of the first six attempts succeeds. If all six fail, or the card refuses to open a socket, it prints its error message and stops instead of hanging or playing garbage.",
["fault_sequences","schedules"],"every sequence of connection failures (refusals, resets, lost or late handshakes, failed socket open) before and around set-up",
"Needs a network card, a handshake and failures at particular points of it; the suite has no player test.",
["player/main.s","server/server.py"],
[("reset, configure, connect and retry loop","player/main.s bootstrap/reset_w5100/FAILED"),("listening socket","server/server.py main")],
["W5100 socket status, retry counter"],["SYN packets, text output, end state"])

p("C07","Pausing, resuming, quitting and resetting at any instant never corrupt playback",
"A key press at any moment pauses playback at the next buffer hand-over and a second one resumes it, with every byte still played exactly once, however long the pause and whatever arrives meanwhile; a reset at any instant after start-up, or a key after the end of the video, returns to the operating system. No key press sequence during playback is mistaken for an end of video.",
["schedules","crash_points"],"every timing of key presses and resets relative to the stream and the network",
"The outcome depends on the instant of the event relative to network buffer state; no test drives the player.",
["player/main.s"],
[("pause loop","player/main.s recv/@1"),("reset vector and exit","player/main.s bootstrap/exit"),("end-of-video wait","player/main.s op_terminate")],
["keyboard strobe, reset vector"],["executed operations, operating system quit call"])

p("C08","The player modifies only the display, its own operands and its I/O devices",
"During playback of any transcoded movie the only memory the player writes is visible display memory (never the unused bytes between display rows), the operand bytes of its own jump and soft-switch instructions, and its scratch bytes (two in page zero, and the read-only location $FFFF used for timing), and it executes only its own code at operation entry points. The only I/O locations it touches are the speaker, keyboard, display switches and its network card.",
["inputs","histories","schedules"],"every movie and delivery schedule",
"Self-modifying code driven by stream bytes: a single stream byte out of place becomes a wild jump or store; only executing whole streams can show none does.",
["player/main.s","transcoder/opcodes.py","transcoder/movie.py","transcoder/video.py"],
[("opcode dispatch by stream-supplied address","player/main.s _jmp operands"),("store addresses from stream-supplied offsets","player/main.s STA page,Y"),("soft switch number from the stream","player/main.s op_ack")],
["all 64 KB main and auxiliary memory"],["every bus write and instruction fetch"])

p("C09","Streams are always well framed and respect the output size limit",
"Every stream starts with the header naming the display mode, holds only whole operations, has exactly one acknowledge operation ending each full 2 KB block (alternating the memory bank in double-hi-res, always the main bank in hi-res), and ends with a terminate operation and zero padding to a multiple of 2 KB. With an output limit the stream stops at the first operation boundary at or beyond the limit and is then closed in the same way; without one, no operation is dropped.",
["inputs","configurations","histories"],"every movie, mode and output size limit, including limits at, just before and just after block boundaries",
"Framing depends on the running byte position over thousands of operations; the tests emit single opcodes only.",
["transcoder/movie.py","transcoder/opcodes.py","transcoder/machine.py"],
[("stream position accounting and padding","transcoder/movie.py Movie._emit_bytes/emit_stream/done"),("header and acknowledge encoding","transcoder/opcodes.py Header/Ack/Terminate")],
["stream position, current bank"],["output file bytes"])

p("C10","Pictures stay in step with the audio regardless of decoder timing",
"At every audio sample the encoder is drawing the newest source picture that is due at that time by the movie's frame rate and the audio rate (subject to the configured every-n-th-picture skipping, starting with the first), in the order of the source and without drift over any length of movie. How fast, slow or unevenly the background picture decoder runs has no effect on the emitted stream.",
["schedules","inputs","configurations"],"every frame rate, audio rate, skip factor, movie length and schedule of the decoder thread",
"Drift and schedule dependence show only over long histories and under particular thread timings; tests call the frame ticker with a handful of values.",
["transcoder/video.py","transcoder/movie.py","transcoder/frame_grabber.py"],
[("frame due test","transcoder/video.py Video.tick"),("frame pull and skip","transcoder/movie.py Movie.encode"),("background decode queue","transcoder/frame_grabber.py FileFrameGrabber.frames")],
["tick and frame counters"],["content bytes of emitted operations against the picture they come from"])

p("C11","The encoder's incremental picture model never drifts from the screen it models",
"After any history of stores, bank switches and new target pictures, the encoder's incrementally maintained pixel representation equals the representation computed from scratch from the modelled screen bytes, for every mode and palette. It never schedules a store into the unused bytes between display rows.",
["histories","inputs"],"every sequence of pictures and of emitted operations, in both modes",
"Drift accumulates across stores through shared header and footer bits of neighbouring bytes; unit tests apply one or two stores at fixed spots.",
["transcoder/screen.py","transcoder/video.py"],
[("incremental update with header/footer fix-up","transcoder/screen.py Bitmap.apply/_fix_scalar_neighbours"),("screen hole masking","transcoder/video.py Video._index_changes")],
["packed pixel map, memory maps"],["model after every operation"])

p("C12","A still picture is always completely drawn, and then left alone",
"If the source picture stops changing, then after a bounded number of operations the player's screen shows exactly that picture (every pixel has the target's colour in the chosen palette), starting from any previous screen, and further operations no longer change its appearance. The bound holds for any picture, mode, palette and random choices of the encoder.",
["histories","inputs","schedules"],"every pair of pictures, every internal random choice, every alternation between the two memory banks",
"Convergence is a liveness property over thousands of scheduling decisions with randomised tie-breaking and approximations that introduce new errors; no test runs the encoder to completion.",
["transcoder/video.py","transcoder/screen.py"],
[("priority queue of pending differences and approximation re-queue","transcoder/video.py Video._index_changes"),("difference weights","transcoder/screen.py Bitmap.diff_weights/_diff_weights/compute_delta_page")],
["update priorities"],["rendered player screen against rendered target"])

p("C13","The picture pipeline delivers every picture once, in order, or fails loudly",
"Under every interleaving of the picture-converting thread and the encoder, every source picture is delivered exactly once and in order, at most a bounded number are buffered ahead, and both sides finish. If the video decoder or the external converter fails at any point, the transcode ends with an error after delivering the pictures before the failure, and never blocks forever or silently truncates the movie.",
["schedules","fault_sequences"],"every thread interleaving and every point of failure of decoder, converter or file system",
"The tests cover one helper function; thread interleavings and failure points are never exercised.",
["transcoder/frame_grabber.py","transcoder/movie.py"],
[("bounded queue with end marker","transcoder/frame_grabber.py FileFrameGrabber.frames"),("external converter invocation","transcoder/frame_grabber.py _hgr_decode/_dhgr_decode")],
["queue contents"],["pictures received by the encoder, termination"])

p("C14","An interrupted transcode never poisons the picture cache",
"If a transcode is killed at any instant, or its converter fails or the disk fills, running it again yields exactly the pictures an uninterrupted first run would have yielded. Cached pictures are used only for the same movie, display mode and palette that produced them, whatever the movie's path (with or without a suffix).",
["crash_points","fault_sequences","histories"],"every crash, kill or disk-error instant in any sequence of runs with any mix of modes and palettes over the same cache directory",
"Needs a crash at a chosen instant of a multi-step file protocol followed by a restart on the surviving files; tests do neither.",
["transcoder/frame_grabber.py"],
[("existence check then convert then read","transcoder/frame_grabber.py _hgr_decode/_dhgr_decode"),("cache directory naming","transcoder/frame_grabber.py _output_dir")],
["cache directory contents"],["pictures delivered by the next run"])

p("C15","The server gives every client the exact file, whatever other clients do",
"Every client that connects and keeps its connection receives exactly the bytes of the movie file followed by end of stream, for any segmentation, slow readers, earlier clients that reset, vanished or stalled for a while, and files replaced between connections. A failing, stalled or paused client never stops the server from serving the others, who need not wait for it, and a restarted server can listen again at once while old connections linger. Nothing is kept of clients that are gone.",
["schedules","fault_sequences","histories"],"every sequence of client connections, resets, stalls, partial sends and server restarts",
"There are no server tests; the behaviour depends on socket errors at particular points in a multi-client history.",
["server/server.py"],
[("per-connection handler sending the whole file","server/server.py ChunkHandler.handle"),("listen set-up with address reuse","server/server.py main")],
["listening socket, accepted connections"],["bytes each client receives, later accept"])

p("C16","The output file is a complete stream or the run fails visibly",
"When the transcoder reports success, the output file contains exactly the bytes of the emitted stream and nothing else, even if an older, longer file of that name existed and whatever partial writes the system performs. If any write, flush or close fails, or the decoder fails midway, the run ends with an error instead of reporting success. The default output is the movie's path with its suffix (if any) replaced by .a2m.",
["fault_sequences","crash_points","configurations"],"every point at which the file system or an input source can fail, every earlier content of the output path",
"Requires write errors at chosen offsets of a run over the whole pipeline; main is untested and cannot even be imported in the test environment.",
["transcoder/main.py","transcoder/movie.py"],
[("output loop","transcoder/main.py main"),("end of stream handling","transcoder/movie.py Movie.emit_stream/encode")],
["output file"],["file bytes and exit status"])

p("C17","An interrupted table build never leaves a wrong table that looks finished",
"If the generator of encoder distance tables is killed or hits a disk error at any instant, then afterwards the encoder either finds no table or a broken one and reports an error, or finds the complete correct table; it never encodes with partial values. Running the generator again always repairs the data directory.",
["crash_points","fault_sequences"],"every crash or disk-error instant during table generation, over any earlier state of the data directory",
"Needs a crash inside the file write of a long computation and a restart; tests only compare small in-memory values.",
["transcoder/make_data_tables.py","transcoder/screen.py"],
[("table computation and save","transcoder/make_data_tables.py make_edit_distance/main"),("table load","transcoder/screen.py Bitmap.edit_distances")],
["data directory"],["load result after restart"])

p("C18","The bundled emulator's devices behave like the hardware over any history",
"In the bundled Apple II emulator, over any sequence of bus accesses, reading a soft switch's status location reports bit 7 set exactly when the switch was last turned on, the network card's indirect address port addresses exactly the location last set by its high and low bytes plus one per data access, the socket's status register follows the open and connect commands, and memory written (by the program, or by loading the ROM images and the player at start-up) is what is read back. Writes to read-only memory or status locations, reads of write-only ports and accesses to undefined I/O locations are reported and leave the state unchanged.",
["histories"],"every sequence of reads and writes on the emulated bus and of program loads",
"State is spread over switches, pointer and memory regions; there are no emulator tests and single accesses do not expose history dependence.",
["simulator/apple2.py","simulator/machine.py","simulator/memory.py","simulator/uthernet.py","simulator/simulator.py"],
[("soft switches","simulator/machine.py SoftSwitch"),("I/O dispatch and traps","simulator/machine.py Machine.io_interceptor"),("memory regions","simulator/memory.py MemoryManager"),("indirect address pointer","simulator/apple2.py AppleII and simulator/uthernet.py Uthernet.read_data/write_data")],
["switch states, card pointer, memories"],["values read on the bus, exceptions raised"])

p("C19","The transcoder's built-in operation addresses are those of this tree's player",
"Streams produced with the symbol table shipped in the repository play correctly on the player assembled from the same tree: each operation the transcoder emits reaches the player routine with the same duty cycle, display page and meaning, for all operations.",
["configurations","inputs"],"all operations a stream can contain, in any order",
"Transcoder and player are only linked by addresses in a generated file; tests compare the file with itself and never run the player.",
["player/iivision.dbg","player/main.s","transcoder/opcodes.py","transcoder/symbol_table.py"],
[("symbol table parsing and address filling","transcoder/opcodes.py _parse_symbol_table/_fill_opcode_addresses"),("opcode entry points","player/main.s op_*")],
["opcode start addresses"],["executed routine per emitted operation"])

p("C20","Colour differences and pixel decoding are symmetric and perceptually ordered",
"The difference between two colours is symmetric, zero for identical colours and follows perceptual distance, and the decoding of screen bits to nominal colours matches the Apple II's video timing for every bit pattern.",
["inputs"],"all colour pairs and bit patterns",
"Tests check single examples of a total function.",
["transcoder/colours.py","transcoder/palette.py","transcoder/make_data_tables.py"],
[("colour decoding and difference matrix","transcoder/colours.py, transcoder/make_data_tables.py")])

p("C21","Screen address conversion is a bijection on visible bytes",
"Converting between linear screen files, row/column and page/offset forms loses and moves no visible byte, for every address.",
["inputs"],"all screen addresses",
"Tests check a few addresses of a total function.",
["transcoder/screen.py"],
[("address conversions","transcoder/screen.py FlatMemoryMap/MemoryMap/y_to_base_addr")])
p("C22","Transcodes of one movie running at the same time never disturb each other",
"Several transcodes of the same movie running at the same time, with the same or different settings (one per playback speed or display mode, say) and in any interleaving of their work on the shared picture cache, each encode exactly the pictures they would encode alone, and none fails because of another. What happens to one of them (it is killed, its converter fails, or its converter outlives it) neither disturbs the others nor leaves anything behind that spoils a later run.",
["schedules","crash_points","fault_sequences"],"every interleaving of the file operations of any number of concurrent transcodes over one cache directory, and every kill or converter failure in some of them",
"Races between processes over files need a chosen interleaving of their system calls; tests run no transcode at all, let alone two.",
["transcoder/frame_grabber.py"],
[("creation of the cache and conversion directories","transcoder/frame_grabber.py FileFrameGrabber.frames"),("existence check, conversion, publication, reading","transcoder/frame_grabber.py _hgr_decode/_dhgr_decode/_publish")],
["cache directory contents","converters still running"],["pictures delivered to each encoder, errors"])

p("C23","A transcode's work in progress is bounded, however long the movie",
"While a movie of any length is transcoded, what is in progress stays below a constant that does not depend on the length of the movie: pictures and audio that have been decoded but not yet encoded into the output, output that has been produced but not yet written to the file, and intermediate files on disk besides the cached pictures. This holds whichever of the video decoder, the picture converter, the audio decoder and the encoder is the slowest at the moment. Measuring the loudness of the audio looks at a bounded first part of it only.",
["schedules","inputs"],"every length of movie, every relative speed and interleaving of decoder thread, converter, audio decoder and encoder",
"Tests never transcode a movie; unbounded buffering shows only with long inputs and an unfavourable schedule, and then as memory or disk exhaustion hours into a run.",
["transcoder/frame_grabber.py","transcoder/audio.py","transcoder/movie.py","transcoder/main.py"],
[("bounded queue of pictures, removal of intermediate bitmaps","transcoder/frame_grabber.py FileFrameGrabber.frames"),("block-wise decoding and bounded normalisation","transcoder/audio.py Audio.audio_stream/_normalization"),("generator pipeline from encoder to file","transcoder/movie.py Movie.encode/emit_stream, transcoder/main.py main")],
["queues and buffers","files in the cache directory"],["how far decoding is ahead of the output file","number and size of files"])

p("C24","No part of the picture is put off for ever while other parts keep changing",
"When pictures change faster than they can be drawn, a difference between screen and picture gains weight for as long as it lasts. So a part of the picture that stays the same from some picture on is completely drawn within a number of operations that depends on how much of the screen keeps changing, not on how long the movie goes on changing it, however small the differences in that part are compared to the others; and once drawn it stays as it is while the rest changes.",
["histories","inputs"],"every sequence of changing pictures around a part that stays the same, in both modes and palettes",
"Starvation shows only in long sequences of pictures under overload; tests encode single pictures, and a still picture (C12) is drawn completely even without any fairness.",
["transcoder/video.py","transcoder/movie.py","transcoder/screen.py"],
[("priorities accumulated from picture to picture","transcoder/video.py Video._index_changes"),("ordering of the work","transcoder/video.py Video._heapify_priorities/_compute_error")],
["update priorities per bank"],["stores in the stream, colours of the constant part on an independent screen"])

with open(__import__("os").path.join(__import__("os").path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
