"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every intact RTCM frame is extracted; nothing else ever is",
  """From any byte stream the decoder extracts exactly the frames that a left-to-right scan finds: preamble 0xD3, six
  zero bits, 10-bit length, payload, matching CRC-24Q, where a candidate that fails is abandoned by advancing a single
  byte. Every such frame is delivered once, byte for byte, in stream order, whatever garbage, false preambles, or
  truncated or damaged frames surround it, and nothing else is delivered. When a file ends, complete frames hidden
  behind an unfinished candidate are still found.""",
  ["inputs"], "all byte streams: valid frames of every payload length 0..1023, noise, false preambles, truncated, nested and damaged frames, in any arrangement",
  "The tests feed clean recorded files; they contain no noise, no false preambles, no extreme frame lengths.",
  ["decoder_top.py", "utilities/CRC24Q.py", "run_conversion.py"],
  [("message extraction loop", "decoder_top.py DecoderTop.catch_message"), ("preamble search", "decoder_top.py __rebase_to_D3"), ("CRC check", "decoder_top.py mcrc / utilities/CRC24Q.py")],
  ["list returned by Converter.parse_bytes", "per-message JSON output of a converted file"],
  [("_tail", "bytes not yet consumed", "decoder_top.py DecoderTop")])

p("C02", "Extraction does not depend on how the stream is cut into chunks",
  """Feeding the same bytes in any partition (single bytes, empty chunks, arbitrary block sizes, file blocks) yields the
  same list of messages and the same parsing-error count. In an undamaged stream each message is handed over by the
  very call that supplies its last byte.""",
  ["inputs", "schedules"], "all byte streams x all partitions of them into consecutive chunks",
  "Tests read each file with one fixed block size and the recorded files mostly fit into one block.",
  ["decoder_top.py", "run_conversion.py"],
  [("tail carried between calls", "decoder_top.py catch_message"), ("one-byte tail special case", "decoder_top.py __rebase_to_D3")],
  ["Converter.parse_bytes", "Converter.get_statistics"],
  [("_tail/_skipped_some_bytes/_synchronized", "parser state between chunks", "decoder_top.py DecoderTop")])

p("C03", "Transmission damage never yields data and never costs an undamaged frame",
  """If any frame of a stream is hit by an error that CRC-24Q guarantees to detect (a burst of up to 24 bits, an odd number of
  flipped bits, or two flipped bits), or bytes are lost from or inserted into the stream, no altered frame is ever
  delivered or shows up in the output. All frames that were not hit are still delivered and converted.""",
  ["inputs", "fault_sequences"], "all sequences of valid frames x all damage patterns (bursts, bit flips, deletions, insertions) at any position including header, length and CRC bytes",
  "No test contains a damaged frame.",
  ["decoder_top.py", "utilities/CRC24Q.py"],
  [("CRC-24Q over header and payload", "decoder_top.py mcrc"), ("single byte resynchronisation", "decoder_top.py catch_message")],
  ["Converter.parse_bytes", "JSON output files"])

p("C04", "Parsing-error count equals the number of gaps between delivered frames",
  """The reported number of parsing errors equals the number of delivered frames that were separated from the previously
  delivered frame by at least one discarded byte. Garbage before the first delivered frame and after the last one is
  not counted, and the count never depends on the content of the frames or on chunk boundaries.""",
  ["inputs", "histories"], "all byte streams of frames and garbage, fed in any partition",
  "The count is never asserted by a test and no test stream has a gap.",
  ["decoder_top.py", "converter_top.py", "run_conversion.py"],
  [("skip/synchronised flags", "decoder_top.py catch_message"), ("statistics", "converter_top.py Converter.get_statistics")],
  ["Converter.get_statistics().parsing_errors", "progress lines of the log"],
  [("_skipped_some_bytes, _synchronized", "gap seen since last good frame", "decoder_top.py")])

p("C05", "Bare MSM output reproduces every transmitted field of MSM1..MSM7",
  """For each of the 49 MSM message types (seven constellations, MSM1..MSM7) and any valid combination of satellites,
  signals and cells (up to 64 cells), the bare JSON output contains, for every field transmitted in the header, satellite
  and signal blocks, exactly the transmitted integer, in satellite/cell order and with the correct sign. Satellite,
  signal and cell masks are given with bit 0 standing for the first satellite, signal or cell, and the time key is the
  transmitted epoch (time of day for GLONASS).""",
  ["inputs"], "all well-formed MSM messages of all 49 numbers, including messages without satellites",
  "Tests never run the bare output; MSM1-4 and 6 are not tested at all.",
  ["sub_decoders/RTCM_MSM.py", "utilities/bits.py", "printers/json_printer.py", "gnss_types/observables.py"],
  [("bit layout", "sub_decoders/RTCM_MSM.py BareObservablesMSM17Decoder"), ("bit extraction", "utilities/bits.py Bits"), ("serialisation", "printers/json_printer.py BareObservablesMSMtoPrintBuffer")],
  ["files written in JSON-B mode"])

p("C06", "Scaled MSM4..MSM7 observables equal the RTCM reconstruction formulas",
  """For every valid MSM4..MSM7 message each satellite/signal cell yields code range, phase range (metres), phase-range
  rate (m/s, MSM5 and MSM7 only), lock time (ms), C/N0 (dB-Hz) and half-cycle flag equal to the RTCM 10403 formulas
  applied to the transmitted integers, under the right RINEX signal and satellite number. An observable whose rough or
  fine part carries the standard's invalid marker is absent, and only that observable; lock time, C/N0 and half-cycle
  flag are present for exactly the transmitted cells; a lock-time index the standard reserves gives 0.""",
  ["inputs"], "all MSM4..7 messages of seven constellations with signals of the constellation's table, all field values including invalid markers and extremes",
  "Reference files cover two MSM types with a handful of epochs; MSM4, MSM6, invalid markers and extremes are never reached.",
  ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "printers/json_printer.py"],
  [("scaling", "sub_decoders/RTCM_MSM.py Bare2Scaled._convert_obs47"), ("lock-time tables and validity checks", "utilities/RTCM_utilities.py MSMT")],
  ["files written in JSON mode"])

p("C07", "Scaled MSM1..MSM3 observables equal the RTCM reconstruction formulas",
  """For every valid MSM1, MSM2 or MSM3 message each cell yields the code range and/or phase range modulo one light
  millisecond that the RTCM formulas give for the transmitted integers, with lock time and half-cycle flag accompanying each
  reported phase. An invalid marker in one cell removes only observables of that cell; other cells of the same satellite
  or signal are unaffected, and no Doppler or C/N0 is ever reported.""",
  ["inputs"], "all MSM1..3 messages of seven constellations, all field values including invalid markers",
  "No test contains an MSM1, MSM2 or MSM3 message.",
  ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "printers/json_printer.py"],
  [("scaling", "sub_decoders/RTCM_MSM.py Bare2Scaled._convert_obs13")],
  ["files written in JSON mode"])

p("C08", "Ephemeris messages are reproduced field by field, bare and scaled",
  """For any content of messages 1019, 1020, 1041, 1042, 1044, 1045 and 1046, the bare JSON output holds every
  ephemeris field exactly as transmitted (two's complement or, for GLONASS, sign-magnitude). The scaled JSON output
  holds the same fields multiplied by the RTCM resolution (codes, flags, indices and week numbers unchanged), and no
  field is omitted.""",
  ["inputs"], "all bit patterns of the seven ephemeris messages",
  "A few recorded messages per type; 1044 is not tested; sign and range extremes are not reached.",
  ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py", "printers/json_printer.py"],
  [("field layout and scale factors", "sub_decoders/RTCM_EPH.py EphemerisDecoder"), ("records", "gnss_types/ephemeris.py")],
  ["files written in JSON and JSON-B modes"])

p("C09", "Base-station messages are reproduced field by field, bare and scaled",
  """For any content of messages 1005, 1006, 1007, 1008, 1013, 1029, 1033 and 1230 (any string lengths including empty
  strings, any number of announced messages, any set of bias flags), the bare JSON output holds every field as transmitted
  and the scaled JSON output holds it in RTCM units: metres, seconds, booleans, decoded UTF-8 text.""",
  ["inputs"], "all contents of the eight base-station messages, strings of 0..255 bytes, 0..31 system-parameter entries, all validity masks",
  "One recorded message per type (none for 1008 and 1013); biases are all zero in the only 1230 sample.",
  ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py", "printers/json_printer.py"],
  [("field layout and scaling", "sub_decoders/RTCM_BASE.py BaseStationDataDecoder"), ("records", "gnss_types/base_station.py")],
  ["files written in JSON and JSON-B modes"])

p("C10", "Malformed but CRC-valid messages are rejected cleanly and in isolation",
  """A CRC-valid message with a supported number whose content is inconsistent (too short for its own counts or layout; MSM or
  base-station message of wrong length; more than 64 cells; satellites without cells) produces no output record and is
  counted as one decoding error, and nothing ever raises. Messages with unsupported numbers are ignored without being counted
  as attempts or errors. The output for all other messages is byte-identical to that of the stream without the bad ones.""",
  ["inputs", "histories"], "all payloads with supported and unsupported message numbers interleaved at any position with valid messages, in all four formats",
  "No test contains a malformed or unsupported message.",
  ["decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "utilities/bits.py"],
  [("length checks", "sub_decoders/*.py"), ("exception barrier", "decoder_top.py catch_decoder_exceptions"), ("overshoot check", "utilities/bits.py getbitu")],
  ["output files", "Converter.get_statistics"])

p("C11", "Decoding a message depends only on that message",
  """The record decoded from a message is the same whatever messages (valid, malformed, repeated, of any type or
  constellation) were decoded before it by the same or another converter. A record already returned to the caller is
  never altered by later decoding or printing, and neither printing nor scaling alters the record handed in.""",
  ["histories"], "all interleavings of messages over one or several live converters of any format",
  "Each test uses a fresh converter and looks at the files only after the run.",
  ["decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "gnss_types/observables.py", "gnss_types/base_station.py"],
  [("fresh decoder objects and records per message", "sub_decoders/RTCM_MSM.py decode_msm17"), ("copying before scaling", "sub_decoders/RTCM_BASE.py")],
  ["objects returned by Converter.decode", "output files"])

p("C12", "JSON output: one valid array per message number, complete, in order",
  """After conversion every JSON file is a loadable array whose first element names the record type and whose further
  elements are the records of exactly one message number, one per decoded message, in arrival order; a file exists for
  a number exactly if such a message was decoded, under the documented folder and name. The pretty-view, header and auxiliary
  switches change only layout (one line per record, or records spread over indented lines) and the presence of the header and
  auxiliary parts, never the remaining data.""",
  ["inputs", "histories", "configurations"], "all sequences of supported messages in any order and number x all switch settings x JSON and JSON-B",
  "Tests convert single-type files with one switch setting.",
  ["printers/json_printer.py", "printer_top.py", "converter_top.py"],
  [("file bookkeeping", "printers/json_printer.py PrintJSON"), ("number to file map", "printers/json_printer.py JSON_SPEC")],
  ["output directory tree"],
  [("open files per message number", "one array per number", "printers/json_printer.py PrintJSON")])

p("C13", "MARGO tables hold one row per message and the right value per satellite",
  """In MARGO output each constellation/observable/signal/MSM-type combination that occurs has one table with two header
  rows (type code and satellite numbers; carrier frequencies) and one row per message that carries it, in
  arrival order, with each value in its satellite's column at the documented precision and NaN wherever that satellite has no
  such observable. With the half-cycle switch off an ambiguous phase is NaN and no half-cycle table exists; with it on phases
  are kept and the table shows 1/0; lock-time tables (seconds) exist only if switched on.""",
  ["inputs", "histories", "configurations"], "all sequences of MSM messages of all constellations and types x half-cycle and lock-time switches",
  "Tests compare a few MSM5/MSM7 epochs with one switch setting.",
  ["printers/margo_printer.py", "printer_top.py"],
  [("row assembly", "printers/margo_printer.py ObservablesMSMtoPrintBuffer"), ("formatting", "printers/margo_printer.py format_obs_string"), ("header", "printers/margo_printer.py make_header")],
  ["files written in MARGO mode"])

p("C14", "MARGO time marks are GPS time of week for every constellation",
  """The time mark of every MARGO row is the message epoch expressed as milliseconds of the GPS week: unchanged for GPS,
  Galileo, SBAS, QZSS and NavIC, shifted by 14 s for BeiDou, and for GLONASS day-of-week plus time of day minus three hours
  plus the configured GPS-UTC offset. The result always lies within the week, wrapping at either end.""",
  ["inputs", "configurations"], "all epochs of the week incl. both wrap-around zones, all days, all configured GPS-UTC offsets, all MSM types",
  "Recorded epochs never lie near a week boundary and the offset is always 18.",
  ["printers/margo_printer.py", "gnss_types/observables.py", "controls.py"],
  [("time conversion", "printers/margo_printer.py conv_to_gps_time"), ("GLONASS day split", "gnss_types/observables.py time/day")],
  ["first column of MARGO rows"])

p("C15", "MARGO phase and Doppler use each satellite's own carrier frequency",
  """Phase in MARGO tables is the phase range divided by, and Doppler is minus the phase-range rate divided by, the wavelength of the
  carrier that the table's second header row states for that satellite. That carrier is the RTCM/RINEX centre frequency of the signal,
  and for GLONASS FDMA signals the centre frequency plus channel number times 0.5625 MHz (L1) or 0.4375 MHz (L2), with channel
  numbers taken from the configuration.""",
  ["inputs", "configurations"], "all signals of seven constellations x all satellites x all GLONASS channel tables",
  "Tests use one channel table and a handful of signals.",
  ["printers/margo_printer.py", "utilities/RTCM_utilities.py", "controls.py"],
  [("carrier table", "utilities/RTCM_utilities.py MSMT.crr_frq"), ("GLONASS literals", "printers/margo_printer.py make_crr_frq")],
  ["MARGO header rows and L/D tables"])

p("C16", "JARGO output equals MARGO observables plus JSON ephemeris and base data",
  """For any stream and any settings, converting to JARGO gives exactly the observation tables that MARGO gives and exactly the
  ephemeris and base-station files that JSON gives, byte for byte, and no other files. Statistics agree
  with those of the JSON conversion.""",
  ["inputs", "histories", "configurations"], "all streams mixing every supported message type, damage and all settings",
  "One JARGO test on a single recorded file.",
  ["converter_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("strategy", "converter_top.py strategy_RTCM3_to_JARGO"), ("printer dispatch", "printer_top.py PrinterTop.print")],
  ["output directory trees of three conversions"])

p("C17", "Settings: defaults are complete, the user file overrides exactly what it states",
  """Effective settings are those of the default file, overridden key by key by the user's ini file, including partial
  files and single GLONASS channels; everything not mentioned keeps its default. If the default file lacks a required section, key or
  one of the 24 GLONASS channels, no conversion output is produced and the log of every source reports an error.""",
  ["configurations"], "all default files (complete or lacking any subset of keys) x all partial override files",
  "Tests only ever use the shipped default file.",
  ["controls.py", "run_conversion.py", "defaults.ini", "addons.ini"],
  [("layered parser", "controls.py ConverterControls"), ("abort without controls", "run_conversion.py main")],
  ["ConverterControls properties", "effect on the converted output of a run"])

p("C18", "Multi-file runs: each source converted independently, nothing else touched",
  """Converting several files in one run gives for each file exactly the output of converting it alone, whatever the
  other files contain and even if some do not exist or cannot be converted (no such file, or an output folder that cannot be made anew). A run creates or changes only the
  folder <source name without extension>-<FORMAT> beside each source as it was named; stale content of that folder is replaced, sources and
  all other files stay untouched, and repeating a run reproduces the same files.""",
  ["inputs", "histories", "configurations"], "all lists of source files (valid, damaged, empty, missing, directories) in any order x formats x previous contents of the output folders",
  "Tests convert one file per run and never look outside the output folder.",
  ["run_conversion.py", "logger.py", "converter_top.py"],
  [("work folder", "run_conversion.py create_work_folder"), ("per file converter and logger", "run_conversion.py main")],
  ["whole directory tree before and after"],
  [("LOGGER_CF", "process-wide log target", "logger.py")])

p("C19", "Statistics and the final verdict agree with what happened",
  """After any run, decoding attempts equals the number of extracted messages with a number supported by the format, decoding errors the number of
  those that yielded no record, and printing attempts and errors count the records handed to the printer and those
  that failed. The log of each file ends with 'Finished without errors.' exactly if there were no parsing, decoding or printing
  errors, and with 'Finished with errors.' otherwise, and its last progress line states these counts and 100%.""",
  ["inputs", "histories"], "all streams of valid, malformed, unsupported and damaged messages in all formats",
  "Tests do not look at statistics or logs.",
  ["converter_top.py", "decoder_top.py", "printer_top.py", "run_conversion.py", "logger.py"],
  [("counters", "decoder_top.py, printer_top.py"), ("verdict", "run_conversion.py main")],
  ["Converter.get_statistics", "<name>-log.txt"])

p("C20", "An interrupted conversion leaves complete, valid output up to that point",
  """If reading the source fails, the user interrupts, or converting a message fails unexpectedly at any point, the run reports that file as
  terminated, the output files hold exactly the records of the messages before that point in well-formed files, and
  the remaining source files of the run are converted normally.""",
  ["crash_points", "fault_sequences"], "every fault position (k-th read, decode or print call) x fault kind (I/O error, keyboard interrupt, unexpected exception) x format",
  "No test injects a fault.",
  ["run_conversion.py", "converter_top.py", "printer_top.py", "printers/json_printer.py"],
  [("finally: release", "run_conversion.py decode_rtcm_file"), ("close writes array end", "printers/json_printer.py")],
  ["output files and log after the faulted run"])

p("C21", "Record copy and comparison are exact and type-strict",
  """Comparing two decoded ephemeris or base-station records succeeds exactly if they are of compatible type, all integer, string,
  boolean and nested container fields are equal, and all float fields agree within the relative tolerance (absolute near zero; NaN
  equals NaN), for negative values just as for positive ones. Shallow and deep copies compare equal to the original, the field iterator lists every field once, and
  modifying a deep copy never changes the original.""",
  ["inputs"], "all pairs of records of every type differing in any one field by any amount",
  "Tests compare equal records only, on two samples.",
  ["gnss_types/data_class_methods.py", "gnss_types/ephemeris.py", "gnss_types/base_station.py"],
  [("compare", "gnss_types/data_class_methods.py DataClassMethods.compare"), ("copy", "gnss_types/data_class_methods.py copy/deepcopy")],
  ["return values of compare/copy/deepcopy/items/len"])

p("C22", "Bare, scaled and tabular outputs of one stream tell the same story",
  """For any stream the JSON-B, JSON and MARGO conversions contain the same messages: every scaled record corresponds to
  one bare record of the same epoch, station, satellites and cells; scaled values are a fixed function of the bare ones (equal bare
  cells give equal scaled cells, a larger fine range gives a larger range). Every MARGO cell equals the scaled value converted by
  the stated carrier, up to printed precision.""",
  ["inputs", "histories"], "all streams of MSM messages of all constellations",
  "Tests compare each format with its own reference file; formats are never compared with each other.",
  ["converter_top.py", "sub_decoders/RTCM_MSM.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("common decoding path", "sub_decoders/RTCM_MSM.py decode_msm17")],
  ["output files of three conversions of the same stream"])

p("C23", "Any file whatsoever is converted to completion with well-formed output",
  """For an arbitrary source file (empty, random, mutated recordings, adversarial headers) and any format, the run ends normally,
  never raises, writes a log with a final verdict, and every output file is well formed: JSON files load, table rows have the full
  number of numeric columns. Memory held while streaming stays bounded, independent of the file's length.""",
  ["inputs"], "all byte strings as source files x four formats",
  "Tests use nine clean recordings.",
  ["run_conversion.py", "decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("exception barriers", "decoder_top.py, sub_decoders, run_conversion.py"), ("chunked reading", "run_conversion.py decode_rtcm_file")],
  ["exit of main, output tree, traced memory"])

p("C24", "Source selection converts exactly the files the user named or picked",
  """Named sources are converted in the given order and non-files are skipped with a message. For a single directory the listing shows exactly the
  files with the chosen extension, and the files whose listed indices the user enters are converted in the entered
  order; out-of-range indices are ignored and non-numeric input selects nothing.""",
  ["inputs", "configurations"], "all directory contents, extensions, names with special characters, and user answers",
  "Tests never use directory mode or the extension option.",
  ["run_conversion.py"],
  [("source list", "run_conversion.py make_list_of_source_files")],
  ["console listing, folders created, log files"])

p("C25", "Plug-in decoders and printers are dispatched strictly by declared scope",
  """A registered sub-decoder is invoked exactly for messages whose number it both is specified for and implements (registering another one
  for the same subset of messages replaces it), and a result of a
  type other than the specified one is dropped and counted as a decoding error; a sub-printer is invoked exactly for record types it
  declares. Incomplete plug-ins (no decode, print or close method, empty scope) and sub-printers of a printer without a supported format are refused, and an exception raised by a sub-decoder, or a failed assertion in
  a sub-printer, affects only the message at hand.""",
  ["programs", "histories"], "all combinations of registered plug-ins with arbitrary scopes, results and faults x message sequences",
  "Tests only use the built-in plug-ins.",
  ["decoder_top.py", "printer_top.py", "converter_top.py"],
  [("dispatch", "decoder_top.py DecoderTop.decode, printer_top.py PrinterTop.print"), ("registration checks", "decoder_top.py register_decoder, printer_top.py add_subprinter")],
  ["calls received by the plug-ins, return values, counters"])

p("C26", "Bit-field, checksum and frame-header primitives are exact",
  """Extracting an unsigned, signed or sign-magnitude field of 1..128 bits at any bit position of a buffer gives exactly the
  integer stored there; a field of any other width, at a negative position or reaching beyond the buffer is refused with
  the documented exception. Bit reversal of up to 128 bits is exact and its own inverse. The checksum is
  CRC-24Q (zero remainder over data plus checksum). The frame helpers report message number, total length and checksum validity of
  any buffer, and nothing (None/False) for one that is too short.""",
  ["inputs"], "all buffers x all field positions and widths inside and outside the buffer",
  "Tests exercise a few fields through whole recordings; the refusals and extreme widths are never reached.",
  ["utilities/bits.py", "utilities/CRC24Q.py", "decoder_top.py", "sub_decoders/RTCM_EPH.py"],
  [("field extraction", "utilities/bits.py Bits"), ("checksum", "utilities/CRC24Q.py CRC24Q.calc"), ("frame helpers", "decoder_top.py mnum/mlen/mcrc")],
  ["return values and exceptions of the helpers"])

p("C27", "Message numbers, signals and output paths are classified by the standard",
  """For every message number the classification helpers return the constellation and message group (legacy observables LEG1..4,
  ephemeris, MSM1..7) that RTCM 10403 assigns, and empty strings for all other numbers. For every constellation and signal
  number the RINEX signal code and centre frequency are those of the standard, and unassigned signals have none. The predicted
  output file, folder and log path for a source and message number are the paths a JSON or JSON-B conversion really writes.""",
  ["inputs"], "all integers as message numbers, all constellation/signal pairs, all source names",
  "Tests touch about a dozen message numbers and signals.",
  ["utilities/RTCM_utilities.py", "printers/json_printer.py", "run_conversion.py"],
  [("classification", "utilities/RTCM_utilities.py getSubset, LEGT, EPHT, MSMT"), ("path prediction", "printers/json_printer.py PrintJSON.make_opath")],
  ["return values of the helpers, output tree of a run"])

p("C28", "The log keeps every message of its file, and only while it is open",
  """Between opening and closing a log, every message of severity information or higher is appended, in order and once, to exactly that log file as
  'name:LEVEL: text', and warnings, errors, critical and progress messages appear also once on the console; debug messages appear
  nowhere. Messages outside such a span are dropped without error, opening a second log while one is in use is refused, closing is idempotent, and after
  closing the file is complete and another one can be opened.""",
  ["histories"], "all sequences of open, close and write operations at all severities over several log files",
  "No test looks at the logger.",
  ["logger.py", "run_conversion.py"],
  [("two handlers with own levels", "logger.py init_2CH"), ("shutdown and removal of handlers", "logger.py deinit")],
  ["log files, standard error"],
  [("ready, logger", "process-wide log target", "logger.py LoggerConsFile")])

p("C29", "A refused command line changes nothing; an accepted one is obeyed",
  """A command line with an unknown option, an unsupported format, an option without its value or no source ends with exit status 2 and a message, a
  help or version request with status 0, and neither creates, changes or deletes any file. In an accepted command line options may stand before or
  after the sources in short or long spelling; the last given format is used (MARGO if none), the given ini file is applied, and
  every named source is converted accordingly. The same holds for the arguments given as one string to main().""",
  ["inputs", "configurations"], "all argument vectors over the documented options, valid and invalid, in any order and spelling",
  "Tests call the program with one fixed option order.",
  ["run_conversion.py", "controls.py"],
  [("argument parser", "run_conversion.py create_argument_parser"), ("parse before any effect", "run_conversion.py main")],
  ["exit status, directory tree before and after"])

p("C30", "Converters alive at the same time do not influence each other",
  """When several converters of any formats and settings are alive in one process and are fed alternately, each one extracts the
  same messages, reports the same statistics and writes the same files, byte for byte, as when it runs alone, no matter how their calls are
  interleaved and when the others are created or released.""",
  ["schedules", "histories"], "all sets of converters with their own streams, formats, settings and folders x all interleavings of their calls",
  "Tests never have two converters alive at once.",
  ["converter_top.py", "decoder_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
  [("per-instance decoder and printer state", "converter_top.py Converter"), ("open files per printer", "printers/json_printer.py, printers/margo_printer.py")],
  ["output trees, statistics, message lists"])

p("C31", "Output depends on source and settings only, not on the environment",
  """Converting the same source with the same settings gives byte-identical output files, counts and verdict in every process, regardless of
  Python's hash seed, the locale and default text encoding, the time zone and the terminal size.""",
  ["configurations", "inputs"], "all streams x hash seeds, locales with and without UTF-8, time zones",
  "Tests run in one environment.",
  ["printers/json_printer.py", "printers/margo_printer.py", "sub_decoders/RTCM_MSM.py", "controls.py", "run_conversion.py"],
  [("iteration over sets and dictionaries", "printers, sub_decoders/RTCM_MSM.py, controls.py"), ("explicit text encoding", "printers")],
  ["output trees of child processes"])

p("C32", "Output that cannot be written is reported and harms nothing else",
  """If an output file or folder cannot be created, or an output file cannot be written or completed (no space, size limit), for ever or temporarily,
  the run neither stops nor raises. A record that could not be put into its file for want of the file is counted as a printing error, a source with such records ends with
  'Finished with errors.', and a source whose output could not be written completely is never reported as 'Finished without errors.'.
  Output files that were not affected stay complete (after a failed creation) or hold the leading records in well-formed files (after a failed
  write), and the remaining sources of the run are converted as if nothing had failed. A log that cannot be written does not prevent the conversion.""",
  ["fault_sequences", "inputs"], "all streams x formats x sets of output files and folders that fail, fault kinds (creation, writing, closing) and durations",
  "No test makes the file system fail.",
  ["printers/json_printer.py", "printers/margo_printer.py", "printer_top.py", "run_conversion.py"],
  [("file creation", "printers/json_printer.py __create_ofile, printers/margo_printer.py __create_ofile"), ("closing", "printers __close, printer_top.py PrinterTop.close"), ("verdict", "run_conversion.py decode_rtcm_file, main")],
  ["output trees, verdicts on the console, progress line of the log"])

p("C33", "The log accounts for every extracted message, in order",
  """The log of a source states its opening and closing and, in stream order, one line per extracted message with its number: decoding succeeded (for observables with epoch and
  number of satellites) for a decoded one, a decoder not found for one of unsupported number, and at least one warning or error for a rejected one.
  No line speaks of a message that is not in the stream, and each progress line states exactly the supported and rejected
  messages logged before it.""",
  ["inputs", "histories"], "all mixtures of decodable, malformed, unsupported messages and garbage, of any length, in all formats",
  "Tests do not read the log beyond its existence.",
  ["decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "run_conversion.py", "logger.py"],
  [("outcome lines", "sub_decoders/*.py decode, decoder_top.py DecoderTop.decode"), ("progress lines", "run_conversion.py decode_rtcm_file")],
  ["<name>-log.txt"])

p("C34", "The log names every value left out as invalid",
  """In the log of a conversion every missing value of a decoded message is named exactly once, before the line that reports the message as decoded, and no value
  that was transmitted valid is named. For MSM1..7 in scaled formats: one warning per satellite whose rough range (255 ms) or rough phase range rate carries the invalid marker, and one line
  per cell (constellation, satellite, signal) for a fine range, phase or rate carrying it whose rough part is present (a phase of an MSM3 cell without range
  need not be named). For GLONASS biases (1230): one warning per transmitted bias marked undefined, in every format that prints it.""",
  ["inputs", "histories"], "all messages x sets of satellites and cells with invalid markers, in any mixture of messages and all formats",
  "Tests do not read the log.",
  ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_BASE.py", "logger.py"],
  [("lines about missing values", "sub_decoders/RTCM_MSM.py scaling of ranges, phases and Doppler; sub_decoders/RTCM_BASE.py 1230")],
  ["<name>-log.txt"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
