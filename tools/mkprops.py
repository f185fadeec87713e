#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
S = "stl-to-ps/"
def prop(id, title, st, over, qt, why, files, mech, obs, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
              "why_tests_cant": why, "anchors": a})

MAIN, LIB, STL, PS, PAR = "stl-to-ps-main.cc", "stl-to-ps.cc", "stl.cc", "ps.cc", "parser.cc"
BINOBS = ["exit status of the stl-to-ps command", "bytes of the file named by --output", "standard error"]

prop("C01", "Success is reported only when the whole document is in the output file",
  "When the command exits 0, the output file holds the complete document: the document header followed by every page of the script, in script order, each labelled n of N, with everything the script puts on it, up to and including the last page's end. If opening, writing, flushing or closing the output fails at any point and for any reason (disk full, quota, I/O error, short write that cannot be completed), the command exits non-zero; if nothing fails and the script is valid, it exits 0. The same holds for the library call: it returns true if, and only if, the document was accepted in full by the given stream.",
  ["inputs", "fault_sequences"],
  "for every valid script and set of models, every output size, and every failing output operation (open, the k-th write, any byte position, flush, close) with any error code, transient or persistent",
  "The tests write to string streams that cannot fail and look at a few substrings; the shell cases never run with a failing output, so no test has ever exercised a single write error.",
  [MAIN, LIB, PS], [("exit status from the library result and the state of the output stream", "stl-to-ps-main.cc main"), ("header, then per page header/text/arcs/lines/footer, with flushes", "stl-to-ps.cc RenderPages; ps.cc")], BINOBS)

prop("C02", "A read error is never mistaken for the end of a file",
  "If the script or any model cannot be opened, or reading it fails at any byte (I/O error, being a directory, a stale handle), the conversion fails: non-zero exit and no document in the output. It never treats what was read so far as the whole file and never reports success with a page, entity or part of a model silently missing.",
  ["inputs", "fault_sequences"],
  "for every script and model set, every open and every read of every input file, at every byte offset, with any error code, transient or persistent",
  "No test reads from a stream that fails part way; the only failing input in the tests is a model that does not exist.",
  [MAIN, LIB, STL], [("stream state checked after open and after the read loop", "stl-to-ps.cc LoadFiles; stl.cc STLFile::Make"), ("script slurped through the stream buffer, whose read errors must end the run", "stl-to-ps.cc ScriptToPS(src, istream, ostream)")], BINOBS)

prop("C03", "The result does not depend on how the operating system delivers the I/O",
  "For the same inputs the document and the exit status are identical whether reads and writes are transferred whole or in arbitrarily short pieces, are interrupted by signals and restarted, are slow, or go to files that cannot seek (pipes). Every conversion finishes within a bounded number of steps and I/O operations, whatever the delivery pattern.",
  ["inputs", "schedules", "fault_sequences"],
  "for every script, model set and every legal sequence of partial transfers, EINTR returns, latencies and non-seekable inputs or output",
  "Tests use in-memory streams and small regular files, where each file arrives in a single read; no test splits a file at a chosen byte.",
  [LIB, STL, PAR, PS, MAIN], [("whole script gathered before parsing", "stl-to-ps.cc ScriptToPS"), ("line-based model reader on a buffered stream", "stl.cc STLFile::Make"), ("buffered output stream", "stl-to-ps-main.cc main")], BINOBS)

prop("C04", "A rejected conversion puts nothing into the output document",
  "If the script does not parse, is inconsistent, names something it does not have, or any model is missing, unreadable or malformed, the command exits non-zero and the output file is left with zero bytes of document. This holds however late in the script, in the page list or in the model list the defect lies, and however much of the output had been computable before it.",
  ["inputs", "fault_sequences"],
  "for every otherwise valid script with one or more defects at any position (any page, any element, any model, any byte), in combination with input faults",
  "The tests check that specific bad inputs return false, with at most one or two pages and defects in one place; they do not check that nothing was emitted, nor combinations.",
  [LIB, MAIN, PAR], [("all models loaded, then all pages generated, before the first byte is rendered", "stl-to-ps.cc ScriptToPS(src, Document, ostream)")], BINOBS)

prop("C05", "A crash leaves only a prefix of the document and a re-run repairs it",
  "If the process dies at any instant, the output file holds either its previous content untouched, or a byte prefix (possibly empty, possibly all) of the one correct document: never foreign bytes, reordered pieces or remains of an earlier, longer document. Running the same conversion again over whatever any number of crashed runs left behind yields exactly the same document as a run in a clean directory.",
  ["crash_points", "histories"],
  "for every script, every previous content of the output path, every instant of death (each I/O operation, each output byte, each instruction), and every sequence of crashed runs followed by a complete one",
  "Crashes and pre-existing output files do not occur in any test.",
  [MAIN, LIB, PS], [("output opened with truncation, written once, front to back", "stl-to-ps-main.cc main; stl-to-ps.cc RenderPages")], ["bytes of the file named by --output after a crash", "bytes after the next complete run"])

prop("C06", "Models are taken from the first load-path entry that has them, and no other",
  "A relative model name is looked up in the current directory and then in each --load_path entry in the order given, and the first one that can be opened is the one drawn, even if it is empty (if it is malformed or can not be read, the conversion fails and no later place makes up for it); an absolute name is opened exactly as written. No file outside those places is ever opened as a model, empty entries and an empty load path add no place to search, and an entry that fails to open (missing, forbidden, out of handles) never changes how later entries or later models are resolved.",
  ["inputs", "configurations", "fault_sequences"],
  "for every load path (any number, order and repetition of entries, empty ones included), every placement of same-named but different models over the entries, and every subset of opens failing with any error",
  "All tests run with the default load path and models next to the script; none has two candidates for one name or a failing candidate.",
  [LIB], [("ordered search, first successful open wins", "stl-to-ps.cc LoadFiles")], ["which model's geometry and dimensions appear in the document", "paths given to open"],
  [("load path", "search places, fixed from --load_path at the first conversion in a process", "stl-to-ps.cc LoadFiles")])

prop("C07", "Every bad model of a script is reported, at its line, and no good one is",
  "When models cannot be found, opened, read or parsed, or a model name is defined twice, one run reports each of them with the script file and the line of its load statement, and fails. A bad model does not hide the others, and no model that is fine is reported.",
  ["inputs", "fault_sequences"],
  "for every list of models and every subset of them being missing, unreadable (open or read error at any byte), malformed or duplicated, in any order",
  "One test case has a single missing model; no test has two defects, a defect behind a good model, or a model that fails while being read.",
  [LIB, STL, "ast.cc", "ast.h"], [("the loading loop continues after a failure and records it", "stl-to-ps.cc LoadFiles"), ("script location printed with each error", "ast.h SYM_ERROR")], ["standard error", "exit status"])

prop("C08", "A model file that was cut short is never drawn",
  "If a model file ends before the solid it started is ended (a copy or export that was interrupted at any byte), the conversion fails instead of drawing the part that is there. A cut may go unnoticed only where every solid begun so far has been ended; a file with no content at all is an empty model.",
  ["inputs", "crash_points"],
  "for every well-formed model (one or more solids) and every byte at which it can be cut, the model being any of the models of any script",
  "The tests parse complete models only.",
  [STL], [("line grammar and the state kept between lines", "stl.cc STLFile::Make")], BINOBS)

prop("C09", "Damaged input bytes give a clean result or a clean error, never a crash",
  "Whatever bytes the script and the models contain (flipped, zeroed, dropped, duplicated, reordered or cut blocks), the command terminates in bounded time by itself, either with exit 0 or with exit 1 and at least one diagnostic. It never aborts, dies by a signal, hangs, touches memory it does not own, or produces the result of uninitialised data.",
  ["inputs", "fault_sequences"],
  "for every script and model set and every sequence of storage damage applied to any of the files, up to completely random bytes",
  "The tests feed a dozen hand-written bad inputs; the space of damaged files is open-ended.",
  [PAR, "parser.y", "lexer.l", STL, LIB, "ast.cc", "center.cc", "geo.cc"], [("grammar and lexer error paths", "parser.y, lexer.l"), ("line grammar of the model reader", "stl.cc STLFile::Make"), ("property checks of each entity", "stl-to-ps.cc DrawToPage")], ["exit status or signal", "standard error", "sanitizer reports"])

prop("C10", "A document carries one time stamp, and it is the time of the conversion",
  "The time in the document header and on every page of one document is the same, whatever the clock does while the document is made and however long it takes. It is the local time, in the configured time zone, of an instant between start and end of the process that made it, written as YYYY-MM-DD HH:MM:SS on the 12-hour clock; with time stamps turned off no page carries a time.",
  ["schedules", "fault_sequences", "configurations"],
  "for every script, page count, conversion speed, time zone, and every behaviour of the clock during the run (steps forward or backward, midnight, noon, year-end and daylight-saving changes)",
  "The only test replaces or ignores the time; no test runs with a clock that moves.",
  [PS], [("the time is read once and kept", "ps.cc Now"), ("header and page label use the kept value", "ps.cc DocumentHeader, PageHeader")], ["time strings in the document", "readings of the clock"])

prop("C11", "The document is a function of script, models and flags alone",
  "Apart from the time stamp, two runs with the same script, models and flags produce byte-identical documents and the same exit status. Neither left-over memory contents, memory addresses, environment variables, locale, process id, the clock, random sources, nor the state of the standard streams influence them. For the library call neither do the caller's locale (C or C++), the formatting state of the streams it passes, or what was read from or written to them before: it takes the script from where the input stream stands and adds the document to what the output stream already got.",
  ["inputs", "configurations", "schedules"],
  "for every script and model set, and every pair of environments differing in heap and stack contents and layout, environment variables, clock, time zone, random sources, and working or broken standard streams",
  "A test runs once in one environment; equality over environments, and in particular absence of uninitialised reads and of address-dependent ordering, is a statement about pairs of runs.",
  [LIB, STL, PS, "geo.cc", "geo.h", "center.cc", "ast.h"], [("value-ordered containers", "geo.h point_set; stl.cc Index"), ("matrices and members initialised before use", "eigen_wrap.h, stl-to-ps-impl.h")], BINOBS)

prop("C12", "Earlier conversions in a process leave no trace in later ones",
  "Calling the library again in the same process gives, for every call, exactly the document and result that the same call gives in a fresh process (up to the time stamp, which is that of the process). This holds after successful and failed conversions alike, and when script or model files change between calls: the files' current content counts.",
  ["histories", "fault_sequences"],
  "for every sequence of conversions (any scripts, valid or not, with or without I/O faults) and every change of the model files between them",
  "Tests convert one script per process or a few independent strings; none compares a conversion with its result in a fresh process.",
  [LIB, PAR, STL, "stl-to-ps.h"], [("all state of a conversion lives in its document, model map and page list", "stl-to-ps.cc ScriptToPS"), ("scanner and parser created per parse", "parser.cc Parse")], ["bytes written to the given stream", "return value"])

prop("C13", "Concurrent conversions in one process do not interfere",
  "When several threads call the library at the same time, each with its own streams, every call returns the result and produces the document that it would have produced alone. This holds for every interleaving of the calls, including their first use of shared lazily built state, and every call makes progress whenever it is scheduled.",
  ["schedules", "inputs"],
  "for every set of scripts (valid or not, sharing models or not), number of threads, and every interleaving of their execution",
  "All tests are single-threaded.",
  [LIB, STL, PS, PAR, "lexer.l", "parser.y"], [("re-entrant scanner and parser", "lexer.l, parser.y"), ("thread-safe one-time initialisation of load path, patterns and time", "stl-to-ps.cc LoadFiles; stl.cc STLFile::Make; ps.cc Now")], ["bytes written to each stream", "return values"],
  [("one-time state", "load path, compiled patterns, time stamp: built on first use, constant afterwards", "stl-to-ps.cc, stl.cc, ps.cc")])

prop("C14", "Running out of memory never yields a false success",
  "If a memory allocation fails at any point of a conversion, the outcome is either the complete correct document with exit 0, or a failure (non-zero exit or termination) whose output is a prefix of that document. An allocation failure never drops, truncates or alters part of a document that is then reported as good.",
  ["fault_sequences", "inputs"],
  "for every script and model set, and every allocation of the run (or every allocation from it on, or every allocation above a size) failing",
  "No test makes an allocation fail.",
  [LIB, STL, PAR, MAIN], [("allocation failures raise and are not swallowed; stream state is checked where iostreams swallow them", "stl.cc STLFile::Make; stl-to-ps.cc ScriptToPS")], BINOBS)

prop("C15", "Each conversion gives back every file handle and all memory it took",
  "When a conversion returns, whether it succeeded, was rejected, or met an I/O error, every file it opened is closed and all memory it allocated is freed, except for caches whose size does not grow with the number of conversions. A process can therefore go on converting without limit.",
  ["histories", "inputs", "fault_sequences"],
  "for every script (valid, or invalid at any position), every model set, every input fault, repeated any number of times in a process",
  "Tests are short-lived processes and no test counts handles or memory.",
  [LIB, PAR, "parser.y", "lexer.l", STL, "ast.h"], [("ownership of everything parsed by smart pointers or the parser's destructors", "parser.y %destructor and actions; ast.h"), ("streams closed by scope", "stl-to-ps.cc LoadFiles")], ["open file descriptors", "live heap allocations after each conversion"])

prop("C16", "Nothing but the named output file is ever modified",
  "Whatever the script, the models and the faults met, and even if the process is killed, the command creates or changes no file other than the one named by --output: input files keep their bytes, names, modes, times and existence, and no temporary, backup or log file appears anywhere. What it writes goes to that file and diagnostics to standard error; standard output stays empty unless parser debugging is asked for.",
  ["inputs", "crash_points", "fault_sequences"],
  "for every invocation, every outcome, every fault and every instant of death",
  "Tests inspect their own temporary directory at most for the one file they expect.",
  [MAIN, LIB], [("the only file opened for writing is the one named by --output", "stl-to-ps-main.cc main")], ["directory contents before and after", "file system calls of the process"])

prop("C17", "Every failure names what failed, and a success reports nothing",
  "When a conversion fails because the script, a model or the output could not be opened, read, written, flushed or closed, standard error carries a message that names that file as it was given (on the command line, or in the load statement), and names no model that was fine. When it fails for any other reason (missing or wrong flags, a defect of script or model), standard error is not empty either. A conversion that exits 0 writes nothing to standard error.",
  ["inputs", "fault_sequences"],
  "for every script, model set and flags, every file that fails, every operation and byte it fails at, every error code, transient or persistent, and every delivery of the I/O",
  "The tests look at return values and at substrings of documents; none captures what is reported, and none makes I/O fail.",
  [MAIN, LIB, "ast.h", STL], [("messages with the name of the script, output or model at each failing operation", "stl-to-ps-main.cc main; stl-to-ps.cc ScriptToPS, LoadFiles"), ("located messages", "ast.h SYM_ERROR")], ["standard error", "exit status of the stl-to-ps command"])

prop("C18", "A file replaced during the conversion counts in one of its versions",
  "If another process atomically replaces the script or a model (a new file renamed over it), creates it or removes it while the conversion runs, the result, document and exit status alike, is the one that some combination of the versions these files had during the run gives, for each file one version, from its first byte to its last. No document mixes two versions of one file, misses the end of one or goes by a size, list or content taken from another; and a file that was gone when it was wanted makes the conversion fail with an empty output.",
  ["inputs", "schedules", "histories"],
  "for every script and model set, every sequence of versions of one or two of the files (longer, shorter, malformed, absent) and every placement of the replacements between the operations of the process",
  "A test can not place another process's rename between two chosen system calls; all tests run on files at rest.",
  [LIB, STL, MAIN], [("each file opened once and read to its end through one descriptor", "stl-to-ps-main.cc main; stl-to-ps.cc LoadFiles; stl.cc STLFile::Make")], BINOBS)

prop("C19", "Every conversion ends by itself, without waiting, and its work is bounded",
  "A conversion always comes to an end, success or error: whatever fails, once or for good, with whatever error code, however slowly or piecemeal the I/O is delivered and however often it is interrupted, whatever the clock does, while the files keep being replaced, and whether or not another process holds locks on them. It never sleeps, never waits for a lock, a terminal or another process, and never retries without end. Faults make it take no more than a small multiple of the work of the undisturbed conversion (plus a bounded amount per partial or interrupted operation). Its work and memory grow at most with the square of the size of a model, and in proportion to everything else: pages, drawings, dimensions, texts, comments, load statements, properties, nested points, error messages.",
  ["inputs", "fault_sequences", "schedules"],
  "for every script, model set and flags, every combination of persistent or transient faults on any file, every delivery, clock behaviour, lock state and standard input; for growth, every size",
  "The tests run a few tiny inputs without faults; none counts work, none makes an operation fail for good, and none would notice one that waits.",
  [MAIN, LIB, STL, PAR, "parser.y", "ast.cc"], [("every loop reads on towards the end of a file or stops at the first error", "stl-to-ps.cc ScriptToPS, LoadFiles; stl.cc STLFile::Make"), ("nested points evaluated once each, depth limited", "ast.cc PointFunc; parser.y point")], ["termination and exit status of the stl-to-ps command", "number of operations and of basic blocks executed", "memory in use"])

# ---- properties this technique does not decide -----------------------------
PURE = ["The tests sample a few hand-picked values; the property ranges over all inputs."]
prop("N01", "Each view is the orthographic projection of the model it names",
  "A drawing shows the model as seen from the named direction (or the given pair of angles), scaled exactly by the drawing's scale and centred where the script says.",
  ["inputs"], "for every model, view, scale and location", PURE[0], [LIB, "geo.cc", STL],
  [("view table and rotation", "stl-to-ps.cc; geo.cc Rotate")], ["line coordinates in the document"])
prop("N02", "Exactly the visible parts of edges are drawn",
  "A line is drawn where, and only where, an edge of the model that bounds a visible face is not covered by the model itself.",
  ["inputs"], "for every model and view direction", PURE[0], [STL, "geo.cc"],
  [("edge index, crossing and hiding computation", "stl.cc Index, EdgeCrosses, ToLines, GenerateLines")], ["line coordinates in the document"])
prop("N03", "Dimensions, angles, diameters and radii show the model's true measures",
  "The number printed by a dimension, angle, diameter or radius is the measure of the model in model units or degrees, in the requested format, whatever the scale of the drawing.",
  ["inputs"], "for every model, view, scale and format", PURE[0], [LIB, "center.cc"],
  [("dimension visitors", "stl-to-ps.cc DrawToPage")], ["text in the document"])
prop("N04", "Points found on the model are the ones asked for",
  "near() yields the model's vertex closest to the given point, center() the centre of the circle through the vertices around it, and both fail with a diagnostic when there is none.",
  ["inputs"], "for every model and point expression", PURE[0], ["ast.cc", "center.cc", "geo.cc"],
  [("point functions and circle fit", "ast.cc PointFunc; center.cc FindCircle")], ["dimension end points", "standard error"])
prop("N05", "The document is valid PostScript whatever text it shows",
  "Text from the script appears on the page exactly as written, and no text, name or format can break the PostScript around it.",
  ["inputs"], "for every string in script and flags", PURE[0], [PS, "ast.cc"],
  [("escaping", "ps.cc TextToPs; ast.cc NewQuote")], ["document accepted by a PostScript interpreter"])
prop("N06", "The parser accepts exactly the script language and locates every error",
  "Scripts of the language are accepted with the meaning the language gives them, all others are rejected with the file, line and column of the first error.",
  ["inputs"], "for every byte string", PURE[0], ["parser.y", "lexer.l", PAR],
  [("grammar", "parser.y, lexer.l")], ["result of parsing", "standard error"])
prop("N07", "Every page is laid out inside its border with its title and label",
  "Each page is 792 by 612 points with the border, the boxed title right-aligned at the bottom and the label at the bottom left, whatever is drawn on it.",
  ["inputs"], "for every script", PURE[0], [LIB, PS],
  [("page header and title box", "stl-to-ps.cc AddHeader; ps.cc PageHeader")], ["document"])
prop("N08", "Misused properties are all rejected, each at its place in the script",
  "An unknown, missing, duplicated or wrongly typed property of a page, drawing, text or dimension makes the conversion fail with a diagnostic at that property; all such errors of a script are reported in one run.",
  ["inputs"], "for every script", PURE[0], [LIB, "ast.h"],
  [("property lists checked by each visitor", "stl-to-ps.cc Flatten, Take and the visitors")], ["standard error", "exit status"])
PURE_REASON = "A pure function of script and models: no schedule, clock, fault, crash or shared state takes part in it, so there is nothing for a simulator to decide; checking it would be plain input generation."
NOT_APPLICABLE = [
  ("N01", PURE_REASON + " (The drawings of the golden runs are compared with an independent projection for generated convex models, as part of C01's document check.)"),
  ("N02", PURE_REASON + " (Only unoccluded silhouettes and visible edges of convex solids are cross-checked in C01's golden runs.)"),
  ("N03", PURE_REASON + " (Printed dimensions of generated drawings are cross-checked in C01's golden runs.)"),
  ("N04", PURE_REASON),
  ("N05", PURE_REASON),
  ("N06", PURE_REASON + " (C04 rejects a catalogue of syntax errors, C09 covers crashes on damaged scripts.)"),
  ("N07", PURE_REASON),
  ("N08", PURE_REASON + " (That misuse leaves no document is C04.)"),
]
if __name__ == "__main__":
  with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
  print(len(P), "properties")
