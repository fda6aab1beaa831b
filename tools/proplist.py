P("C01", "Welded arcs stay on the sliced tool path",
  "For every arc in the output, every point of the source moves it replaces (end points and chord middles) lies within half the configured resolution of the arc, plus the rounding of the printed numbers, and is met in the original order. Conversely no point of the arc is further than that from the replaced moves. So the tool never leaves the sliced path by more than the user allowed.",
  ["inputs", "configurations"], ANY, NOTESTS, [AW + "segmented_arc.cpp", AW + "segmented_shape.cpp", AW + "segmented_shape.h"],
  [("circle fit and deviation test", "ArcWelder/segmented_shape.cpp arc::try_create_arc, circle::is_over_deviation"), ("slice and direction test", "ArcWelder/segmented_shape.cpp arc::are_points_within_slice")],
  OUT, TECH, NOTE)
P("C02", "The machine is in the same state after every retained line",
  "When source and output are executed side by side from the same start state, then after every source line that is kept and after every arc, the machine's X, Y and Z position, positioning modes, units and selected tool are the same in both, up to the printed precision. This holds for any start position, any homing position, and across relative moves, G92, G28, unit and mode changes. An arc is only created where the position is known.",
  ["inputs", "configurations", "histories"], ANY, NOTESTS, WELD + TRACK,
  [("position tracking", "GcodeProcessorLib/gcode_position.cpp update_position"), ("writing back unwelded gcodes", "ArcWelder/arc_welder.cpp write_unwritten_gcodes_to_file")], OUT, TECH, NOTE)
P("C03", "Filament is conserved and moves of different kinds are not mixed",
  "After every retained line and every arc the total filament fed and the logical extruder coordinate equal those of the source, up to the printed E precision, in absolute and relative extruder mode alike. An arc replaces only extruding moves, only retracting moves or only travel moves, and an arc that replaces travel moves feeds nothing.",
  ["inputs", "configurations", "histories"], ANY + "; absolute and relative extrusion, G92 E, several tools", NOTESTS, WELD + [GP + "extruder.cpp", GP + "gcode_position.cpp"],
  [("sum of relative E", "ArcWelder/segmented_arc.cpp e_relative_"), ("offset E of the end point", "ArcWelder/segmented_arc.cpp get_shape_gcode"), ("move kind test", "ArcWelder/segmented_arc.cpp try_add_point")], OUT, TECH, NOTE)
P("C04", "Everything that is not welded passes through verbatim, in order, once",
  "The output is a header block of comments that states the configured settings, followed by every source line that was not merged into an arc, byte for byte and in the original order exactly once (blank lines, carriage returns and what follows a null character aside). A slicer marker on the first line (UltiGCode flavor, PrusaSlicer) stays first. The comments of merged moves are kept on the arc, in order, and nothing is invented.",
  ["inputs", "configurations"], ANY + "; comments, unknown commands, host commands, CRLF, missing final newline", NOTESTS, [AW + "arc_welder.cpp", AW + "unwritten_command.h", GP + "gcode_comment_processor.cpp", GP + "gcode_parser.cpp"],
  [("unwritten command queue", "ArcWelder/arc_welder.cpp write_gcode_to_file, write_unwritten_gcodes_to_file"), ("comment collection", "ArcWelder/arc_welder.cpp get_comment_for_arc"), ("header", "ArcWelder/arc_welder.cpp add_arcwelder_comment_to_target")], OUT, TECH, NOTE)
P("C05", "Arcs and retained moves run at the programmed feedrate",
  "Every arc is executed at the feedrate of the moves it replaces, whether the arc states it or inherits it, and every retained move after it runs at its source feedrate, up to rounding to whole units. Moves at different feedrates are never merged.",
  ["inputs", "configurations", "histories"], ANY + "; modal feedrates, F on its own line, F on the first or last merged move", NOTESTS, [AW + "segmented_arc.cpp", AW + "arc_welder.cpp", GP + "gcode_position.cpp"],
  [("feedrate change test", "ArcWelder/arc_welder.cpp process_gcode"), ("F word of the arc", "ArcWelder/segmented_arc.cpp get_shape_gcode")], OUT, TECH, NOTE)
P("C06", "Only moves that may be merged are merged",
  "An arc replaces at least two consecutive straight moves with real XY motion, at one feedrate and of one kind, and no other command. Moves whose comments name different features (';perimeter', ';infill', ';infill(bridge)', ';skirt' and the moves to their first points) are never merged with each other. Moves in relative positioning or while units are inches are never merged, moves with differing Z only if 3D arcs are allowed, and travel moves only if travel arcs are allowed.",
  ["inputs", "configurations", "histories"], ANY, NOTESTS, WELD + [GP + "gcode_comment_processor.cpp"],
  [("eligibility conditions", "ArcWelder/arc_welder.cpp process_gcode"), ("per point conditions", "ArcWelder/segmented_arc.cpp try_add_point"), ("features named in comments", "GcodeProcessorLib/gcode_comment_processor.cpp")], OUT, TECH, NOTE)
P("C07", "Every arc is a geometrically valid command within the configured limits",
  "Each generated arc has a centre offset that is not zero, a radius not above the configured maximum, and start and end points at the same distance from the centre up to the printed precision. The length of the commanded arc, in the commanded direction, differs from the length of the replaced path by no more than the configured path tolerance.",
  ["inputs", "configurations"], ANY, NOTESTS, [AW + "segmented_shape.cpp", AW + "segmented_arc.cpp"],
  [("radius and length limits", "ArcWelder/segmented_shape.cpp circle::try_create_circle, arc::try_create_arc"), ("direction", "ArcWelder/segmented_arc.cpp get_shape_gcode")], OUT, TECH, NOTE)
P("C08", "No generated command is longer than the configured maximum",
  "When a maximum g-code length is configured, the code part of every arc written (without its comment) has at most that many characters, for every magnitude, sign and precision of its words.",
  ["inputs", "configurations"], ANY + "; coordinates and E values of any magnitude, precisions 3 to 6, dynamic precision", NOTESTS, [AW + "segmented_arc.cpp", GP + "utilities.cpp"],
  [("predicted length", "ArcWelder/segmented_arc.cpp get_shape_gcode_length"), ("digit count", "GcodeProcessorLib/utilities.cpp get_num_digits")], OUT, TECH, NOTE)
P("C09", "Firmware compensation keeps enough segments per circle",
  "When firmware compensation is configured (segment length and minimum number of segments per circle), no arc is written for which the circle's circumference, divided by the smaller of the configured segment length and the length of the replaced path, is below the configured minimum. Small circles that firmware would flatten therefore stay as sliced.",
  ["inputs", "configurations"], ANY + " with compensation on", NOTESTS, [AW + "segmented_arc.cpp"],
  [("compensation test", "ArcWelder/segmented_arc.cpp try_add_point_internal_")], OUT, TECH, NOTE)
P("C10", "Moves whose extrusion rate differs too much are not merged",
  "With extrusion rate variance detection on, the filament fed per millimetre of any two consecutive extruding moves merged into one arc differs by no more than the configured percentage of the earlier one. Blank lines, comments and skipped lines between the moves make no difference.",
  ["inputs", "configurations", "histories"], ANY + " with variance detection on", NOTESTS, [AW + "arc_welder.cpp"],
  [("rate comparison", "ArcWelder/arc_welder.cpp process_gcode")], OUT, TECH, NOTE)
P("C11", "Numbers are written correctly, in plain decimal, with the configured precision",
  "Every word of a generated arc is a plain decimal number without superfluous zeros in front, with exactly the configured number of decimals for its axis (or, with dynamic precision, the larger number the source used so far), E at E precision and F as an integer; an exact zero may be a bare 0. The printed number is the correctly rounded value, for every magnitude up to the limits of a double, and the digit count used to predict lengths agrees with it.",
  ["inputs", "configurations"], "every finite double and every precision; " + ANY, "The suite's number tests compare random values in four narrow ranges; the two that fail do so on this tree.", [GP + "utilities.cpp", AW + "segmented_arc.cpp"],
  [("number to text", "GcodeProcessorLib/utilities.cpp dtos, get_num_digits"), ("precision selection", "ArcWelder/segmented_shape.cpp update_xyz_precision, ArcWelder/arc_welder.cpp")], OUT, TECH, NOTE)
P("C12", "Reported statistics agree with the files",
  "Lines and g-codes processed, arcs created, points compressed, file sizes and compression figures equal what can be recounted from the source and target file. Per kind (extrusion, retraction, travel) the reported number and length of source moves equal a recount of the source, and the target's number and length equal the source's less the replaced moves plus the arcs.",
  ["inputs", "configurations"], ANY, NOTESTS, [AW + "arc_welder.cpp", AW + "arc_welder.h", GP + "utilities.cpp"],
  [("statistics update", "ArcWelder/arc_welder.cpp process_gcode"), ("progress", "ArcWelder/arc_welder.cpp get_progress_")], OUT, TECH, NOTE)
P("C13", "Progress reports are sane and cancelling works",
  "Progress reports never go backwards in any counter, stay between 0 and 100 percent, state the compression reached so far, start before the first line, and end at 100 percent of the source size when the conversion completes. If the callback asks to cancel, the conversion reports that it was cancelled and not that it succeeded, and the partial target it leaves is consistent with the source up to where it stopped.",
  ["inputs", "schedules"], "every program and every report at which the callback may cancel", NOTESTS, [AW + "arc_welder.cpp"],
  [("progress reporting", "ArcWelder/arc_welder.cpp process, get_progress_")], OUT + ["the progress callback"], TECH, NOTE)
TECHF = "runtime monitoring: the shipped program under an interposition shim that kills it, fails its file operations or watches them at every step; files checked after each run"
P("C14", "A file is never lost: in-place conversion is all or nothing",
  "Converting a file in place (target omitted, equal to the source, or another name of it) leaves under its name, at every moment and after any crash, failed file operation or cancellation, either the complete original or the complete converted file. A program exits with status 0 only if the complete conversion is at the target path. Conversions running at the same time do not disturb each other, a source that is not the target is never modified, and no temporary file is left behind (unless replacing the source fails).",
  ["crash_points", "fault_sequences", "schedules", "inputs"], "every crash point, every failing file operation, every spelling of the paths, both programs", "The tests never convert in place and inject no faults.", [AW + "arc_welder.cpp", "ArcWelderConsole/ArcWelderConsole.cpp", INV + "ArcWelderInverseProcessor.cpp", INV + "arc_interpolation.cpp", GP + "utilities.cpp"],
  [("temporary target", "GcodeProcessorLib/utilities.cpp get_temp_file_path_for_file"), ("replacing the source", "ArcWelderConsole/ArcWelderConsole.cpp main, ArcWelder/arc_welder.cpp process")],
  ["the directory of the converted file, and the program's file system calls"], TECHF, "Held for every file operation of the sampled conversions as crash point and fault (counts in the evidence). Crashes are modelled as the process dying at a file system call; power loss and reordering of disk writes are outside.")
P("C15", "The command line means what its help says",
  "For every valid combination and spelling of options, ArcWelder writes exactly the file that the library writes for the configuration the options describe, and exits with status 0. It warns of a radius above 1 km and of a path tolerance above 0.25 or below 0.001, and of nothing else. With an invalid option, value or path it explains the problem, exits with status 1, and creates, changes or deletes no file.",
  ["inputs", "configurations"], "every combination of options, spellings, order, repeated and invalid values", "No test runs the program.", ["ArcWelderConsole/ArcWelderConsole.cpp", "ArcWelderConsole/ArcWelderConsole.h"],
  [("argument parsing and validation", "ArcWelderConsole/ArcWelderConsole.cpp main")], ["exit status, messages and files of the program"],
  "runtime monitoring: differential oracle, the program's output against the library's for the same configuration; exit status and directory monitor for invalid ones", "Held on the generated option sets of the run and a table of invalid ones. Trusted: our table of option names and ranges, taken from the program's help.")
P("C16", "Conversion is deterministic and unaffected by what should not matter",
  "The converted file is a function of the source and the configuration alone. Log level, progress interval, position buffer size, the contents of fresh memory, conversions done before or at the same time in the same process, file names, in-place operation and the environment change no byte of it and no reported count.",
  ["inputs", "configurations", "histories"], ANY + "; repetitions with everything irrelevant varied", NOTESTS, WELD + TRACK + [GP + "logger.cpp"],
  [("logging guards", "ArcWelder/arc_welder.cpp process_gcode"), ("position buffer", "GcodeProcessorLib/gcode_position.cpp add_position")], OUT,
  "runtime monitoring: differential oracle, byte comparison of repeated real conversions under varied irrelevant conditions", "Held for the listed variations on the generated conversions of the run.")
P("C17", "Conversions in several threads do not interfere",
  "Any number of conversions may run in one process at the same time, each with its own ArcWelder object, with a shared logger or their own. There is no data race, and every one of them gives the result it gives alone.",
  ["schedules", "inputs"], "every interleaving of up to many conversions, with and without logging", "All tests are single threaded.", [AW + "arc_welder.cpp", GP + "logger.cpp", GP + "gcode_parser.cpp", GP + "utilities.cpp"],
  [("logger buffers", "GcodeProcessorLib/logger.cpp"), ("number conversion", "GcodeProcessorLib/fpconv.cpp")], ["ThreadSanitizer reports; results and files of every conversion"],
  "ThreadSanitizer on 2 to 24 concurrent real conversions with injected delays, interposed non-reentrant libc functions, and a differential oracle against single-threaded runs", "Races are found on the accesses that were executed, in the interleavings that happened (overlap counted in the evidence).")
P("C18", "No input makes the converter crash, hang or touch memory it does not own",
  "For every file content and every configuration, conversion ends in time proportional to the input without memory errors, undefined behaviour, uninitialised reads that affect the result, crashes or hangs. It either succeeds or reports why it could not.",
  ["inputs", "configurations"], "every byte sequence as input, every configuration and option value", "The tests feed a few well-formed files, without sanitizers.", WELD + TRACK + [GP + "array_list.h", AW + "unwritten_command.h", GP + "fpconv.cpp"],
  [("containers", "GcodeProcessorLib/array_list.h, circular_buffer.h"), ("number conversion", "GcodeProcessorLib/fpconv.cpp"), ("line reading", "ArcWelder/arc_welder.cpp process")], ["sanitizer and valgrind reports, exit status and running time of every conversion"],
  "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind on mutated, hostile and ordinary conversions, and a libFuzzer target over input and configuration", "No report on the executions of the run (edges reached in the evidence). Leak checking is off: the logger is never freed.")
P("C20", "A line of G-code is read as what it states",
  "Every line is read as its command, its words with their values and number of decimals, and its comment, whatever the case, blanks and tabs, order, signs and leading zeros, comment characters or CRLF line end; an address with a decimal is a command of its own. Code and comment together are the original text, for every sequence of bytes. What was read before has no influence.",
  ["inputs", "histories"], "every line of bytes without NUL and newline", "The parsing test reads two dozen fixed lines.", [GP + "gcode_parser.cpp", GP + "parsed_command.cpp", GP + "parsed_command_parameter.cpp"],
  [("command and words", "GcodeProcessorLib/gcode_parser.cpp try_parse_gcode, try_extract_gcode_command, try_extract_parameter"), ("numbers", "GcodeProcessorLib/gcode_parser.cpp try_extract_double")], ["the parsed_command returned for a line"],
  "runtime monitoring: the real parser under AddressSanitizer on lines spelled at random from a known meaning, compared with that meaning; invariants on arbitrary lines", "Held on the lines of the run (counts in the evidence).")
P("C21", "The tracked machine position is the one the program produces",
  "After every line the tracker's position, feedrate, extruder coordinate of every tool, filament fed and retracted, positioning and unit modes and selected tool are those of a machine that executes the program, the tool is where the coordinates, the shift by G92 and the offset of the nozzle in use put it, G92 leaves a homed axis where it is, and an axis counts as known exactly if the program determines its position (axes whose relative position became unknown by homing or a change of units included). Undoing updates restores the earlier states exactly and in order, and copies of a state, the history and a growing buffer preserve everything.",
  ["inputs", "histories", "configurations"], "every program, tool count, shared or separate extruder axes, buffer size, interleaving of updates, undos and copies", "No test calls the tracker with undo or checks its state after a program.", TRACK + [GP + "circular_buffer.h"],
  [("position update", "GcodeProcessorLib/gcode_position.cpp update, update_position, process_*"), ("undo", "GcodeProcessorLib/gcode_position.cpp undo_update"), ("copies", "GcodeProcessorLib/position.cpp")], ["the state reported after every update, undo and copy"],
  "runtime monitoring: the real tracker stepped line by line under AddressSanitizer beside an independent reference machine and a history model", "Held on the histories of the run. Tool offsets (G10 P, M218) followed by tool changes are outside: firmware differs on them.")
P("C22", "The buffers behave like the sequences they stand for",
  "A circular buffer and an array list hold exactly the items put into them and not yet taken out, in order, for every sequence of insertions and removals at both ends, growing, clearing and copying. A full circular buffer drops the item at the opposite end, a full list of fixed size and an empty buffer refuse the operation, and a growing list grows.",
  ["histories", "configurations"], "every sequence of operations and every capacity", "No test touches the containers directly.", [GP + "circular_buffer.h", GP + "array_list.h"],
  [("ring arithmetic", "GcodeProcessorLib/circular_buffer.h, array_list.h get_index_position, push_*, pop_*, resize")], ["the items, counts and capacities after every operation"],
  "runtime monitoring: operation sequences on the real containers under AddressSanitizer beside a reference model", "Held on the sequences of the run (distinct operation, size, capacity combinations in the evidence).")

P("C19", "What a slicer made of an arc becomes an arc again",
  "A run of at least three consecutive straight moves of one kind, feedrate and extrusion rate whose end points lie, up to the printed precision, on one circle within the configured limits is replaced by a single arc, and a closed circle by at most two. The order, direction, size, place and decimals of the moves, and relative or absolute extrusion, make no difference.",
  ["inputs", "configurations"], "every true arc within the limits, every configuration; a few commands may remain for about one in ten thousand arcs whose rounded digits lie unluckily, and before the first move on a closed circle", "The tests print how many arcs were made of fixed files, and compare that with nothing.", WELD,
  [("growing an arc", "ArcWelder/segmented_arc.cpp try_add_point, try_add_point_internal_"), ("circle through three points", "ArcWelder/segmented_shape.cpp circle::try_create_circle"), ("conditions for ending an arc", "ArcWelder/arc_welder.cpp process_gcode")], OUT,
  "runtime monitoring: real conversions of programs made from known arcs; the monitor counts the commands left between markers around each", "Held on the generated arcs of the run. Arcs are chosen well within the limits (chord error at most 0.3 of the resolution); what happens at the limits is judged by C01, C07, C09.")
STR = [INV + f for f in ("ArcWelderInverseProcessor.cpp", "arc_interpolation.cpp", "firmware.cpp", "marlin_1.cpp", "marlin_2.cpp", "prusa.cpp", "repetier.cpp", "smoothieware.cpp")]
SOUT = ["the source and target file, the messages and the exit status of ArcStraightener, read after it ended"]
STECH = "runtime monitoring: offline trace checker over recorded source/output of the real ArcStraightener, with an independent machine model and closed-form geometry of each arc as reference"
SNOTE = "Held on the generated programs of the run (firmware, version and settings combinations in the evidence). Trusted: our machine model, the tolerances of the firmware's single precision arithmetic and of its small-angle approximation between corrections."
STEST = "No test runs the straightener."
SANY = "every program with arcs, every firmware type, version and setting"
P("C23", "The moves of a straightened arc lie on the arc",
  "The straightener replaces every G2 and G3 whose start is known by straight moves that start where the arc starts, end at its programmed end point, and have every vertex on the arc, in the arc's direction, at the place the number of segments gives it, within the deviation of the firmware's approximation. This holds for I/J and R form, full circles, helices, absolute and relative positioning, millimetres and inches, and every firmware.",
  ["inputs", "configurations"], SANY, STEST, STR, [("rotation of the radius vector", "ArcWelderInverseProcessor/marlin_2.cpp plan_arc_2_0_9_1 (and its counterparts)"), ("centre of an arc", "ArcWelderInverseProcessor/arc_interpolation.cpp process")], SOUT, STECH, SNOTE + " Repetier 1.0.4 and single precision losing full circles are reproduced from the firmware and excluded.")
P("C24", "Straightened arcs keep height, filament and feedrate",
  "The moves of a straightened arc rise and feed in proportion to the angle covered (all filament in the last move for the firmware that does so), end at exactly the arc's Z and E in absolute and relative mode, run at the arc's feedrate, and name no axis the arc does not move.",
  ["inputs", "configurations"], SANY, STEST, STR, [("linear interpolation of Z and E", "ArcWelderInverseProcessor/marlin_2.cpp plan_arc_2_0_9_1"), ("writing a segment", "ArcWelderInverseProcessor/firmware.cpp g1_command")], SOUT, STECH, SNOTE + " Repetier 1.0.4 does not move Z on arcs; neither does its emulation.")
P("C25", "Arcs are cut into the segments the chosen firmware would cut",
  "The number of moves an arc becomes, and so how fine the result is, is what the chosen firmware version computes from the arc's radius, sweep, rise and feedrate and from the settings in force (segment length, minimum length, segments per second or per circle, arc tolerance), limited to the 65535 that its counter holds.",
  ["inputs", "configurations"], SANY, STEST, STR, [("segment count", "ArcWelderInverseProcessor/marlin_1.cpp, marlin_2.cpp, prusa.cpp, repetier.cpp, smoothieware.cpp plan_arc"), ("settings per firmware version", "ArcWelderInverseProcessor/firmware.cpp, *::apply_arguments")], SOUT, STECH, SNOTE + " The firmware formulas were written down by us from the documented algorithms; where rounding in single precision may give either of two counts, both are accepted.")
P("C26", "Everything but arcs passes through the straightener verbatim",
  "The output is a header that states the firmware and exactly the settings in force, then every source line that is not an arc byte for byte, once and in order, and the well-formed moves of each arc in its place. The summary printed at the end states the lines, arcs and segments really processed.",
  ["inputs", "configurations"], SANY, STEST, STR, [("main loop", "ArcWelderInverseProcessor/arc_interpolation.cpp process"), ("header", "ArcWelderInverseProcessor/arc_interpolation.cpp process")], SOUT, STECH, SNOTE)
P("C27", "The straightener's command line means what its help says",
  "Every spelling and order of the options gives the conversion of the settings they describe; the defaults it prints are the ones conversions use, and the settings it states for a conversion are those given. With an invalid option, value, setting of another firmware or path it explains the problem, exits with status 1, and creates, changes or deletes no file.",
  ["inputs", "configurations"], "every firmware and version, every option and spelling", STEST, [INV + "ArcWelderInverseProcessor.cpp", INV + "firmware.cpp", INV + "firmware_types.h"],
  [("argument parsing and validation", "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp main"), ("printing defaults", "ArcWelderInverseProcessor/firmware.cpp get_arguments_description")], ["exit status, messages and files of the program"],
  "runtime monitoring: differential oracle between spellings of one configuration, comparison of printed and effective defaults, exit status and directory monitor for invalid arguments", "Held on the generated option sets of the run and a table of invalid ones.")
P("C28", "Straightening a welded file gives back the sliced path",
  "Welding a program and straightening the result leaves a machine in the state the sliced program leaves it in after every line kept and every arc, with the same filament fed, and every move generated lies within the welding resolution plus the firmware's chord error of the sliced path, and the other way round.",
  ["inputs", "configurations", "histories"], ANY + "; every firmware", "No test combines the two programs.", WELD + STR,
  [("welding", "ArcWelder/arc_welder.cpp process_gcode"), ("straightening", "ArcWelderInverseProcessor/arc_interpolation.cpp process")], OUT,
  "runtime monitoring: offline trace checker over source, welded and straightened file of real conversions by both programs", "Held on the round trips of the run. Arcs an emulated firmware skips or loses in single precision (see DESIGN.md) are excluded.")
P("C31", "No input makes the straightener crash, hang or touch foreign memory",
  "For every file content, every firmware and every accepted setting, the straightener ends in time bounded by its input and output without memory errors, undefined behaviour, uninitialised reads, crashes or hangs.",
  ["inputs", "configurations"], "every byte sequence as input, every accepted setting", STEST, STR + TRACK,
  [("arc arithmetic", "ArcWelderInverseProcessor/marlin_2.cpp plan_arc_2_0_9_1"), ("line reading", "ArcWelderInverseProcessor/arc_interpolation.cpp process")], ["sanitizer and valgrind reports, exit status and running time of every conversion"],
  "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind on hostile and ordinary conversions, and a libFuzzer target over input and settings", "No report on the executions of the run. Float-to-integer overflow is not checked: the emulated firmware counts segments in 16 bits and so does its emulation.")
P("C32", "Welding a welded file keeps its arcs and all other guarantees",
  "The output of a conversion can be converted again, with the same or another configuration: every arc already in it passes through verbatim, and the second conversion satisfies everything that is guaranteed of the first, with arcs moving the tracked position, filament and statistics like any other move.",
  ["inputs", "configurations", "histories"], "every output of the welder, every second configuration", "No test converts a file that contains arcs made by the welder.", WELD + TRACK,
  [("arcs in the source", "GcodeProcessorLib/gcode_position.cpp process_g2, process_g3"), ("arcs are not merged", "ArcWelder/arc_welder.cpp process_gcode")], OUT, TECH, NOTE)
PYF = [PY + f for f in ("py_arc_welder.cpp", "py_arc_welder_extension.cpp", "py_logger.cpp", "python_helpers.cpp")]
PTEST = "No test loads the Python module."
P("C29", "The Python module converts as its dictionary says and reports what happened",
  "PyArcWelder.ConvertFile writes exactly the file the library writes for the configuration its dictionary describes, with the documented defaults for what is left out or out of range. The progress it hands to the callback and the results it returns, source and target tables included, equal those of the library and of the two files, and a false answer of the callback cancels the conversion.",
  ["inputs", "configurations"], "every dictionary of settings, value type and spelling, every answer of the callback", PTEST, PYF,
  [("reading the dictionary", "PyArcWelder/py_arc_welder_extension.cpp ParseArgs"), ("progress and results", "PyArcWelder/py_arc_welder.cpp build_py_progress, on_progress_"), ("log level", "PyArcWelder/py_logger.cpp")], ["the file, the dictionaries given to the callback and the value returned by ConvertFile"],
  "runtime monitoring: the real module driven from Python beside the library for the same configuration, and a recount of the files", "Held on the generated calls of the run. The OctoPrint logger the module needs is a stand-in of ours.")
P("C30", "No use from Python crashes, leaks or corrupts the interpreter",
  "Whatever dictionary, callback, callback result, exception or log call Python code supplies, ConvertFile returns a result or raises an ordinary exception, with balanced reference counts, no memory error, no memory growth over repetitions and no exception left pending. Conversions started from the callback or from several threads give the files they give alone.",
  ["inputs", "histories", "schedules"], "every Python value in every place, exceptions at every callback, nested and concurrent conversions", PTEST, PYF,
  [("argument errors", "PyArcWelder/py_arc_welder_extension.cpp ConvertFile, ParseArgs"), ("callback", "PyArcWelder/py_arc_welder.cpp on_progress_"), ("strings", "PyArcWelder/python_helpers.cpp")], ["exceptions, reference counts, memory in use, sanitizer reports and files of every call"],
  "runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer build of the module in the real interpreter, reference count and growth monitors, differential oracle for nested and concurrent conversions", "Held on the calls of the run. The OctoPrint logger the module needs is a stand-in of ours.")
P("C33", "What ArcWelder prints about a conversion is true",
  "The settings, progress messages and final tables printed by ArcWelder agree with the configuration in force and with the two files: every row counts the moves of its length (from its first limit up to, not including, its second) before and after, totals are the sums of the rows, lengths and percentages follow from them, and the lines of a table are equally wide. Messages appear as the log level and progress type ask for, and success is reported exactly if the conversion succeeded.",
  ["inputs", "configurations"], ANY + "; every log level and progress type", "No test runs the program; those of the library print tables and compare them with nothing.", [AW + "arc_welder.h", AW + "arc_welder.cpp", GP + "utilities.cpp", "ArcWelderConsole/ArcWelderConsole.cpp"],
  [("rows and totals", "ArcWelder/arc_welder.h source_target_segment_statistics"), ("messages", "ArcWelderConsole/ArcWelderConsole.cpp main, on_progress_*")], ["the printed text, the source and the target file"],
  "runtime monitoring: offline checker over the printed text and the files of conversions by the real program, with an independent recount of moves and lengths", "Held on the conversions of the run. A length within rounding of a row's bound may be in either row, unless it can be computed exactly (moves between whole numbers).")
P("C34", "With 3D arcs allowed, an arc rises where the moves it replaces rise",
  "With 3D arcs allowed, moves become one arc only if their height follows the distance travelled: at the end of every replaced move the arc is as high as that move, within the resolution and the printed precision, and it ends at the printed height of the last one. A flat curve that ends in a step is not turned into a helix. Without 3D arcs every arc is flat.",
  ["inputs", "configurations", "histories"], "every sequence of moves with changing height", "No test allows 3D arcs.", WELD,
  [("even rise", "ArcWelder/segmented_shape.cpp is_over_deviation, get_deviation_sum_squared"), ("Z word", "ArcWelder/segmented_arc.cpp get_shape_gcode"), ("without 3D arcs", "ArcWelder/arc_welder.cpp process_gcode")], OUT, TECH, NOTE)
P("C35", "The tracked printing state is what the moves amount to",
  "After every line, what the tracker says about the print follows from the moves made so far, and lines that move nothing change none of it. Of each tool it is the nozzle offset set by G10 P or M218, the length still retracted, the length extruded and given back by the line, the filament fed in total, whether the line extrudes, retracts or gives back filament and whether it is the first to do so, and whether the extruder is primed, partially or fully retracted (against its configured retraction length). Of the machine it is the layer and its height, a layer beginning when the machine extrudes (or, past the first layer, has given back a retraction), after priming and inside the configured bounds, above the last printed height and at least the minimum layer height above the height of the current layer; the whole height increments reached; whether it is lifted, which means above the last printed height by at least the tool's lift height without extruding; inside, which means within the configured box or circle; and travelling, an X or Y move without E; homing leads to the configured home position, and the position is definite once all axes and modes have been known in metric units.",
  ["inputs", "histories", "configurations"], "every program and tracker configuration", "No test looks at the tracker's state.", TRACK,
  [("extruder state", "GcodeProcessorLib/gcode_position.cpp update"), ("layers, bounds and lift", "GcodeProcessorLib/gcode_position.cpp update"), ("travel", "GcodeProcessorLib/gcode_position.cpp update_position"), ("configuration", "GcodeProcessorLib/gcode_position.cpp gcode_position_args, gcode_position::gcode_position")], ["the state reported after every update, undo and copy"],
  "runtime monitoring: the real tracker stepped line by line under AddressSanitizer beside an independent model of the print", "Held on the histories of the run. Positions within 0.000009 of a limit are not judged; what nozzle offsets mean for the coordinates is left out.")
P("C36", "The log holds what its level asks for, in the right place",
  "Each program and the library write a log message exactly if its level is at least the level set for its logger: once, complete, in order, with the local time, the name and the level it was given; what is logged as an exception goes to standard error, everything else to standard output. From INFO on, the messages of a run don't depend on the level beyond leaving out those below it, and at VERBOSE every line of the source is logged as it stands. In the Python module all messages of a conversion go to the Python logger with the method of their level, and none to standard output.",
  ["inputs", "configurations"], "every program, level and message; time zones", "No test looks at the log.", [GP + "logger.cpp", GP + "logger.h", AW + "arc_welder.cpp", "ArcWelderConsole/ArcWelderConsole.cpp", "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp", PY + "py_logger.cpp"],
  [("levels", "GcodeProcessorLib/logger.cpp is_log_level_enabled, set_log_level"), ("message", "GcodeProcessorLib/logger.cpp create_log_message, log"), ("Python", "PyArcWelder/py_logger.cpp log")], ["standard output, standard error and the calls of the Python logger"],
  "runtime monitoring: the same run at several levels compared message by message, the logger beside a model, and a recording Python logger", "Held on the runs explored. The wording of messages below INFO may change with the level.")
