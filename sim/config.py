"""Per-property run counts, wall limits and the fixed parts of the evidence."""

PIPE_REAL = ["transcoder main/movie/video/screen/opcodes/machine/audio/frame_grabber (shipped "
             "code, unmodified)", "python queue and threading modules on simulated locks"]
PIPE_STUB = ["ffmpeg frame reader, ffprobe, audioread, librosa (to_mono, resample), bmp2dhr",
             "encoder distance tables computed on demand with the same metric",
             "clock, thread scheduler, child processes"]
PLAYER_REAL = ["player binary assembled from player/main.s, executed instruction by "
               "instruction (py65)"]
PLAYER_STUB = ["Apple II bus, soft switches, ROM entry points HGR0/COUT/ProDOS MLI",
               "W5100 card and its TCP, Ethernet link"]

CHECKS = {}


def add(prop, quick, thorough, rule, states, real, stubs, assumptions, cpu=150):
    CHECKS[prop] = dict(quick=quick, thorough=thorough, rule=rule, states=states, real=real,
                        stubs=stubs, assumptions=assumptions, cpu=cpu)


BASE_ASSUME = ["decoder stand-ins deliver what the real ones deliver for the same media",
               "seeded sampling: absence of a violation is evidence, not proof"]

add("C09", (240, 240), (3000, 2400),
    "one transcode of generated pictures and audio through the real main(), random mode, palette, "
    "movie length (biased to block boundaries), size limit (biased to block boundaries) and thread "
    "schedule; non-trivial if the stream holds at least one acknowledge",
    "(mode, end position within block, blocks, limited)", PIPE_REAL, PIPE_STUB, BASE_ASSUME, 200)

SYS_REAL = PIPE_REAL + PLAYER_REAL + ["server/server.py with the python socketserver module"]
SYS_STUB = PIPE_STUB + PLAYER_STUB + ["sockets of the serving host"]

add("C01", (400, 240), (4000, 2400),
    "one transcode of generated pictures and audio through the real main(), then the stream served "
    "by the real server over a randomly faulty link and executed by the real player; non-trivial if "
    "the screen changes and more than 300 operations are compared",
    "(mode, palette, picture kinds, blocks, limited)", SYS_REAL, SYS_STUB, BASE_ASSUME, 200)

add("C02", (300, 240), (6000, 2400),
    "one movie with generated audio (channels, rate, kind, normalisation, decoder block split) "
    "through the real main(), then executed by the real player on a randomly faulty link and its "
    "speaker pulses measured; non-trivial if more than 200 pulses are compared",
    "(rate, channels, audio kind, normalisation, blocks)", SYS_REAL, SYS_STUB, BASE_ASSUME, 200)

add("C03", (300, 240), (6000, 2400),
    "one stream (synthetic operations framed by the real movie.py, or a real encode) served by "
    "the real server over a randomly faulty link with pauses and executed by the real player; "
    "non-trivial if at least one 2 KB block was handed back",
    "(stream kind, mode, blocks, end time)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C04", (250, 240), (6000, 2400),
    "one stream with loss, duplication, reordering, delays, partitions, pauses and short sends "
    "until a fault horizon, then progress within a bound, close and a further client; non-trivial "
    "if a fault or pause was injected",
    "(stream kind, blocks, end time)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C05", (400, 240), (6000, 2400),
    "one stream (all 1024 operations in random order, random operations, or a real encode) "
    "executed by the real player, every operation's cycle cost measured; non-trivial if at least "
    "one hand-over with data available was measured",
    "(stream kind, network level, operations, hand-overs)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C06", (600, 240), (12000, 2400),
    "one sequence of connection attempts with per-attempt outcome (refused, black hole, lost or "
    "reset handshake, late handshake, refused socket open), late server start and power cycles "
    "of the player in mid-movie; non-trivial if any of these was injected",
    "(outcome, plan, faults)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C07", (600, 240), (12000, 2400),
    "one stream with key presses and a reset at random instants (one-cycle resolution), pauses "
    "of up to 4000 s and network faults; non-trivial if a key or reset arrived",
    "(outcome, pause times, keys)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C08", (300, 240), (6000, 2400),
    "one stream (real encode of pictures with garbage in the unused bytes, or synthetic) executed "
    "by the real player with every write, I/O access and dispatch checked; non-trivial if more "
    "than 100 operations were executed",
    "(stream kind, mode, operations, writes per bank)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C19", (300, 240), (6000, 2400),
    "one stream made with the shipped symbol table (all 1024 drawing operations in random order, "
    "or a real encode) executed by the player assembled from this tree and the effect of every "
    "operation compared; non-trivial if at least 1000 operations were compared",
    "(stream kind, mode, operations)", SYS_REAL, SYS_STUB, BASE_ASSUME)

add("C10", (200, 240), (3000, 2400),
    "one transcode of pictures that draw a value of their own, at a random frame rate, audio rate, "
    "every-n and length, then the same movie again with the decoder thread preempted and slowed; "
    "non-trivial if the movie spans more than two pictures",
    "(mode, frame rate, audio rate, every-n, length)", PIPE_REAL, PIPE_STUB, BASE_ASSUME, 200)

add("C11", (300, 240), (6000, 2400),
    "one history of a pixel model: either a real encode with the model compared after every "
    "operation, or random stores applied directly; non-trivial if more than 100 stores",
    "(history kind, mode, palette, picture kinds)", PIPE_REAL, PIPE_STUB, BASE_ASSUME, 200)

add("C12", (300, 240), (4000, 2400),
    "one transcode of several pictures ending in a still one (random mode, palette, frame rate, "
    "every-n, encoder random seed), the stream drawn on an independent screen and rendered with "
    "an independent colour decoder; non-trivial if the still picture needed drawing",
    "(mode, palette, rate, every-n, picture kinds, operations until drawn)", PIPE_REAL, PIPE_STUB,
    BASE_ASSUME, 200)

GRAB_REAL = ["transcoder movie/frame_grabber/screen (shipped code, unmodified)",
             "python queue module on simulated locks"]
GRAB_STUB = ["ffmpeg frame reader, ffprobe, bmp2dhr", "thread scheduler, clock, child processes"]

add("C13", (2400, 240), (40000, 2400),
    "one run of the picture pipeline under a random thread schedule (preempted between any two "
    "lines), with a random decoder, converter or disk failure at a random picture, or a consumer "
    "that stops; non-trivial if threads were preempted or a fault fired",
    "(mode, pictures, fault, where)", GRAB_REAL, GRAB_STUB, BASE_ASSUME, 200)

add("C14", (1400, 240), (16000, 2400),
    "one history of up to five transcodes over one directory, each in its own process, killed "
    "before a random file-system call, hit by disk errors, a full disk or converter failures, "
    "with other modes, palettes and movies in between; non-trivial if a kill or fault happened",
    "(sequence of runs, their faults and outcomes)",
    GRAB_REAL + ["the real file system below a scratch directory"],
    GRAB_STUB + ["fault injection between the code and the file system; what reached the kernel "
                 "survives a kill (no power loss)"], BASE_ASSUME, 200)

add("C22", (1200, 240), (16000, 2400),
    "two or three transcodes of one movie running at once over its directory, each in its own "
    "process, the order of their file-system calls chosen by the seed, with staggered starts, "
    "kills (the converter surviving or not) and converter failures in some, then one more alone; "
    "non-trivial if the processes really alternated",
    "(order of the processes' calls)",
    GRAB_REAL + ["the real file system below a scratch directory", "one real process per transcode"],
    GRAB_STUB + ["process scheduler"], BASE_ASSUME, 200)

add("C24", (40, 240), (800, 2400),
    "one transcode in which more bytes change with every picture than can be drawn until the next, "
    "while a small part with small differences stays constant; the stream is drawn on an "
    "independent screen and the constant part compared after every operation; non-trivial if the "
    "part was not complete by the second picture",
    "(mode, palette, frame rate, bytes changing, constant content, operations until complete)",
    PIPE_REAL, PIPE_STUB, BASE_ASSUME, 240)

add("C23", (32, 240), (600, 2400),
    "one transcode of a movie of 18 to 30 s (thorough: to 140 s) with a random schedule of the "
    "decoder thread and random stalls of audio and picture decoder, measuring at every decoder "
    "call what has been decoded, what has reached the output file and what lies in the directory",
    "(mode, audio format, rate, schedule, pictures and audio ahead)", PIPE_REAL, PIPE_STUB,
    BASE_ASSUME, 240)

add("C15", (4000, 240), (60000, 2400),
    "one history of a serving host: 2 to 8 viewers (well-behaved, slow, stalled, half-closing, "
    "resetting before or after being accepted, vanishing, talking), files replaced or missing in "
    "between, failing accepts, short sends, a lossy link and kills and restarts of the server; "
    "non-trivial if any fault was injected",
    "(sequence of connections, misbehaviours, kills and replacements)",
    ["server/server.py with the python socketserver module", "the real file system below a scratch "
     "directory"], ["sockets, selector, TCP and link of the serving host", "viewers", "clock"],
    BASE_ASSUME)

add("C16", (2000, 240), (30000, 2400),
    "one transcode to a file with an earlier file of that name in place (longer, shorter, part of "
    "the same), with open, write, close errors, a full disk, short writes, or a failing decoder or "
    "converter, the file compared with the stream; non-trivial if a fault was injected or a file "
    "was in the way",
    "(mode, fault, calls hit, earlier file, outcome, blocks)", PIPE_REAL, PIPE_STUB +
    ["fault injection between the code and the file system"], BASE_ASSUME, 200)

add("C17", (800, 240), (10000, 2400),
    "one history of up to four runs of the real table generator over one data directory (fresh, "
    "complete, or with damaged files), each in its own process, killed or interrupted while "
    "computing or before a random file-system call, or hit by disk errors, a full disk or short "
    "writes; after every run all tables are loaded as the encoder does; non-trivial if a fault or "
    "damage was injected",
    "(sequence of runs, faults and table states)",
    ["transcoder make_data_tables.py and screen.py table loading (shipped code), numpy and zipfile",
     "the real file system below a scratch directory"],
    ["table size (2^10 entries instead of 2^26 and 2^28)", "fault injection between the code and "
     "the file system; what reached the kernel survives a kill (no power loss)"], BASE_ASSUME)

add("C18", (8000, 240), (200000, 2400),
    "one history of 5 to 150 bus accesses and small programs on the bundled emulator (soft "
    "switches, network card registers and memory, RAM, ROM, undefined locations), each access by "
    "the processor or directly, compared with a reference model; illegal accesses are the injected "
    "faults; non-trivial if more than 20 accesses",
    "(sequence of accesses)",
    ["simulator apple2/machine/memory/uthernet (shipped code) on the py65 processor"],
    ["contents of ROM, RAM and card memory (random)"], BASE_ASSUME)

