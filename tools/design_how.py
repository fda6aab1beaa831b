HOW = {
"C01": "Oracle `path`: for every arc written, the replaced source moves are sampled (end points, chord middles, points nearest to the centre) and compared with the commanded arc in order of its angle; conversely the arc is sampled against the moves. Workload: 11 500 programs (tagged and untagged) of exact and noisy arcs, S-curves, spirals, polygons, zig-zags, moves at the limits of the resolution, at coordinates up to 10⁶. Tests can't: they look at counts printed for fixed files.",
"C02": "Two copies of the reference machine execute source and output side by side, from a random start and homing position; compared after every kept line and every arc. Arcs from positions only the machine knows are violations.",
"C03": "As C02 for extruder coordinate and total filament; tolerance half a unit of the printed E per absolute value, times the number of relative values so far. Kinds (extrude, retract, travel) of the moves in one arc are compared.",
"C04": "`align.py` reads the header, then demands every source line in order, verbatim, or as member of exactly one arc; `comments` compares the comments on an arc with those of its moves; `header_block` compares each stated setting with the configuration. Tagged programs carry a unique comment on each line, so a lost, doubled, or moved line is seen as such.",
"C05": "The feedrate in force on both machines for every kept move and every arc.",
"C06": "For every arc: its members are ≥ 2 consecutive G0/G1 moves, mode and unit state from the reference machine, one feedrate, one kind, Z and travel options.",
"C07": "Numbers of the arc as printed: centre offset ≠ 0, |start-centre| against |end-centre|, radius limit, arc length in the commanded direction against the length of the moves and the path tolerance.",
"C08": "Length of the code part of every arc against the limit; limits are drawn around lengths that occur (20 to 70). A `rollover` profile puts numbers where rounding adds a digit (9.9996, -99.9999, and exactly half way, 9.9995) right at the limit.",
"C09": "The number of segments a compensating firmware would use, computed from the printed arc and the settings.",
"C10": "Extrusion per mm of consecutive merged extruding moves, recomputed from the source, against the configured percentage. Rates of generated programs scatter around the limit; blank and comment lines are put between moves.",
"C11": "Each printed word against the plain decimal pattern, the configured (or dynamic: cumulative) decimals, and the value of the replaced moves; plus 60 000 numbers through `dtos`/`get_num_digits` directly, compared with exact decimal rounding.",
"C12": "Reported results against counts and lengths recomputed from source and target; profile `stats` has programs whose moves the recount can attribute completely (all kinds, arcs in the source, both extruder modes).",
"C13": "All reports of a conversion are recorded and checked for order and bounds; 320 long programs are converted with reports every 1000 lines and cancelled at a random one. What a cancelled conversion leaves must be the conversion of the lines it says it processed (all oracles C01–C12 are applied to it). Sparse sources above 2 and 4 GiB show positions and sizes beyond 32 bits.",
"C14": "The shipped programs run under the shim: killed at each file operation in turn, each operation failing in turn (EIO, ENOSPC, EACCES, short writes), in 11 ways of naming source and target (symlinks, hard links, …). After each run the directory is compared with the two permitted contents. Also: concurrent conversions of one directory and one file, cancellations in place, unusable paths as an unprivileged user. Everything happens in a scratch directory.",
"C15": "Differential: the program with a random spelling of a random configuration against the library with that configuration (byte comparison without the header's date); 300 invalid command lines with a directory monitor (nothing created, changed or deleted).",
"C16": "Each program is converted again with a different log level, report interval, position buffer size, poisoned fresh memory (`MALLOC_PERTURB_`), file names, environment and locale, after and beside other conversions; every byte and count must be equal.",
"C17": "ThreadSanitizer build; 2 to 24 threads with shared or own loggers, injected delays in callbacks, functions that are not thread safe (localtime and friends) interposed; results are compared with those of the same conversions alone. The number of overlapping pairs is reported, a run without overlap decides nothing.",
"C18": "The asan variant on 5000 hostile/mutated/ordinary inputs with arbitrary (also absurd) configurations, 240 conversions under valgrind memcheck, and 8 libFuzzer processes seeded with generated programs (the first byte string selects the configuration). Growth of time with the length of the input is bounded by a second, doubled run. A file of a million lines with 110,000 moves and arcs made of 12,000 moves is converted under asan at three log levels: numbers of seven and more digits reach every message and every buffer.",
"C19": "120 000 programs of known circles (size, direction, start, decimals, absolute/relative, between marker lines): the commands left between the markers must be 1 arc (2 for closed circles). Some runs are entered from and left by other moves with nothing in between. This is the completeness side of the welder: without it, a converter that never welds would satisfy C01–C13.",
"C20": "Lines are spelled at random from a known meaning (case, blanks, signs, leading zeros, T?/Tx forms, @ commands, M117 texts, comments, CRLF), parsed by the real parser (asan), and compared with the meaning; arbitrary byte lines are checked for invariants (text preserved, same result on a used parser).",
"C21": "The real tracker is stepped line by line beside an independent machine (tools, shared and separate E axes, retraction state, units, modes, homing, relative positions after unit changes), with undos, copies and buffer growth interleaved. Below the coordinates, where the machine itself is: coordinate + G92 shift - nozzle offset (M218, G10 P), and G92 never moves a homed axis (G28, G92 O). All reported fields and known-flags are compared after every operation.",
"C22": "570 000 operations on `circular_buffer` and `array_list` beside `collections.deque`, capacities 1 to 50, copies and growth at every wrap position, asan.",
"C23": "2400 programs with arcs of all forms (I/J, R, full circles, helices, relative, inch, unknown starts) through all 8 firmware emulations with random settings; every vertex is compared with the closed-form circle at the angle its number gives it. The tolerance is the documented small-angle approximation between corrections plus single precision.",
"C24": "As C23: Z and E of each vertex in proportion, end values exact, feedrate, no foreign axes.",
"C25": "As C23: number of moves per arc against the firmware's formula, written down independently; where single precision may give either of two counts both are accepted.",
"C26": "As C23: all other lines byte for byte in order; the header's settings against those in force; the printed summary against the file.",
"C27": "Differential between spellings of one configuration; printed defaults against the header of a conversion and against explicit setting of these values; the settings a conversion states against those given; refused command lines with the directory monitor.",
"C28": "Source → welder → straightener; reference machines on the first and last file are compared at every kept line and arc end, and the generated segments against the sliced moves both ways.",
"C29": "The module built from /repo is loaded into the installed Python, beside the library driver for the same configuration: output bytes, every entry of every progress dictionary, the tables (read by `table.py`) and the result. Values are given as int, float, bool, str where the module accepts them, left out, or out of range.",
"C30": "3700 hostile calls (wrong types in each place, raising callbacks, callbacks returning anything, loggers that raise, unwritable paths) in the asan+ubsan module inside the real interpreter; reference counts of all arguments before and after; `SystemError` (a result with a pending exception) is a violation; nested conversions from the callback and 8 threads are compared with conversions alone; memory growth over 12 500 repeated conversions.",
"C31": "As C18 for the straightener: 3000 programs under asan, 60 under valgrind, libFuzzer, the file of a million lines under three firmwares.",
"C32": "Outputs of the welder (same and other configuration) and programs with arcs between moves are welded again; every arc of the source must be there verbatim and all oracles C01–C12 apply.",
"C33": "The program's text is parsed: argument list, progress lines (SIMPLE and FULL), tables. Rows, totals, lengths and percentages are compared with a recount of the two files, messages with log level and progress type. Moves between whole numbers have exact lengths: those at a limit of the table must be in the row that starts there.",
"C34": "On every arc with more than one move and 3D arcs allowed, the height of the arc at the end of each replaced move (found by length and by angle, the nearer counts) is compared with that move's. The profile 'rising' makes spirals, steps, ramps with a jump at either end, vase-mode heights and steps below the printed precision; at least 2,000 rising arcs must be judged.",
"C36": "640 runs of the two programs (successful and failing), each at NOSET and at two to six other levels in four time zones: the messages of a run are those of the NOSET run from its level on, apart from the tracing below INFO whose wording depends on the level; times lie within the run. 80,000 operations on the logger class (several loggers, levels set by index and value, any bytes in messages) are compared with a model. 400 conversions from Python record the calls of the logger they were given, and standard output is redirected and must stay empty.",
"C35": "1,200 generated configurations (tools, home position, priming and layer heights, increments, box or round bed, lift and retraction lengths, default modes; handed over by copy and by assignment) with programs of layers, retractions in several steps, partial and excessive returns, lifts, tool changes, homing and undos. After each of the 120,000 lines every derived field is compared with a model that knows only the position and the filament of the line; a program ends early when a value lies so near to a limit that rounding decides.",
}
