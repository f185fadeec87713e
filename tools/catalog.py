"""Per property: what a quick and a thorough run explore, and how a case counts."""
GEN = ("A case is one seed: a random script (pages, drawings, text, dimensions, comments, layouts), random closed models, random flags and file names, "
       "plus the faults and schedule below, all drawn from one generator. ")
ASSUMPTIONS = [
    "seeded sampling of scenarios: what was not drawn was not checked",
    "the stand-ins for absl/log and parser_support.h behave as the real ones do",
    "only durable state survives a simulated crash: what reached write(); loss of the kernel's page cache is not modelled, the tool promises no durability beyond it",
]


def e(quick, thorough, rule, technique, note, assumptions=(), level="exploration"):
    return {"quick": quick, "thorough": thorough, "rule": GEN + rule, "level": level, "technique": technique, "note": note, "assumptions": list(assumptions)}


P = "plain"
CATALOG = {
    "C01": e([(P, 20000)], [(P, 400000)],
             "1-5 faults are injected one per run into the output: failing open, write error at a chosen byte (once or for good), failing close, short and interrupted writes, signals, full standard error, and failing caller streams for the library call. "
             "Non-trivial: the output fault fired; distinct by trace.",
             "deterministic simulation: output faults at any byte against a golden document and an independent expectation of its content",
             "Sampled write/close/open faults at byte granularity over random documents; the fault-free run's document is compared with an independent description of the script (pages, order, labels, text, edges)."),
    "C02": e([(P, 22000)], [(P, 400000)],
             "1-5 runs each fail an open or a read of the script or of one model at a chosen byte (with short reads, latency, EINTR), or make it a directory or missing. Non-trivial: the fault fired; distinct by trace.",
             "deterministic simulation: read and open faults at any byte of any input",
             "Every fired read or open fault must end in failure with nothing in the output."),
    "C03": e([(P, 14000)], [(P, 250000)],
             "2-5 re-runs of the same inputs with random delivery: transfers of 1 to 8190 bytes, EINTR rates up to 93%, latency, non-seekable files; inputs with a byte order mark, carriage returns, ^Z, zeros and the like. Non-trivial: at least one transfer was shortened, interrupted, delayed or not seekable; distinct by trace.",
             "deterministic simulation: delivery schedules of I/O, with step and operation bounds for progress",
             "Document and status compared with the plain delivery; progress bounded by basic blocks and operations proportional to the plain run."),
    "C04": e([(P, 80000)], [(P, 1500000)],
             "one or two defects (18 kinds: syntax, early end, unknown or duplicate or ill-typed properties, bad dimensions, missing/unreadable/unopenable/malformed/cut models, late or early) are put into a valid case, over stale output and random delivery. Every case is non-trivial (it has a defect); distinct by trace.",
             "deterministic simulation: defects and input faults at any place, output inspected byte for byte",
             "Exit status and emptiness of the output are checked for each defect; the defect kinds are those of the catalogue in sim/props.cc."),
    "C05": e([(P, 20000)], [(P, 400000)],
             "1-4 crashes in a row at an I/O operation, an output byte or a basic block, as sudden death or a signal, over the remains of the runs before and of older, longer or foreign output, each run a process of its own time and id, then one undisturbed run. Non-trivial: the crash happened; distinct by trace.",
             "deterministic simulation: crash and restart at any operation, output byte or basic block",
             "After each crash the output must be the previous content or a prefix of the golden document; the final run must restore it exactly."),
    "C06": e([(P, 80000)], [(P, 1500000)],
             "0-6 load path entries (relative, absolute, empty, missing, a file, '..', '/', trailing slashes, repeated), models of distinct sizes in random candidate places, decoys outside of them, opens that fail, candidates that are empty, malformed or unreadable. Every case is non-trivial (at least one lookup); distinct by trace.",
             "deterministic simulation of the file system: lookup order against a reference resolver, with failing opens and decoys",
             "The size of the drawn box tells which file was used; every file opened for reading is checked against the candidates."),
    "C07": e([(P, 60000)], [(P, 1000000)],
             "2-29 models (rarely in scripts of up to 140,000 lines) of which a random subset is missing, a directory, unopenable, unreadable at a byte, cut or malformed, plus names defined twice. Non-trivial: at least one bad model; distinct by trace.",
             "deterministic simulation: several simultaneous input faults, diagnostics checked against the injected set",
             "The set of reported lines must contain every injected one and no load line that is fine."),
    "C08": e([(P, 15000)], [(P, 250000)],
             "2-7 cuts of one model at any byte, as a shorter file or as an early end of a stream. Non-trivial: the cut is inside a solid; distinct by trace.",
             "deterministic simulation: truncated storage and early end of file at any byte",
             "Cuts inside a solid must fail with an empty output; the verdict comes from an independent scan of the intact file."),
    "C09": e([(P, 25000), ("asan", 9000)], [(P, 600000), ("asan", 250000)],
             "1-7 pieces of damage to script and models: bit flips, zeroed, lost, doubled, moved, random blocks, cuts, damaged lines, tokens and numbers exchanged. Run under AddressSanitizer and bounds checks, and twice with different left-over memory. Every case is non-trivial (it is damaged); distinct by trace.",
             "deterministic simulation: storage damage, run under sanitizers, step bounds, and two fillings of memory",
             "Memory errors are found by AddressSanitizer and libstdc++ assertions; reads of uninitialised memory by comparing two fillings; hangs by a bound on basic blocks."),
    "C10": e([(P, 35000)], [(P, 600000)],
             "a start instant near turns of minutes, hours, days, years and time-zone changes, 12 zones or none, a clock that advances per block, operation or reading, and up to 4 jumps. Non-trivial: the clock moved during the run; distinct by trace.",
             "deterministic simulation: virtual clock with jumps and drift, time zones",
             "All stamps of a document must be equal and be the local time of an instant in the simulated interval of the process."),
    "C11": e([(P, 20000)], [(P, 350000)],
             "2-4 re-runs with other left-over memory, heap and stack addresses, environment, locale, host, user, machine, terminal, working directory, limits, files nobody named or beside the inputs, older output, process id, random source, clock, standard input, full standard error, flags in another order and spelling; or of the library call by a caller with its own locales, stream states and stream positions. Every perturbed run is non-trivial; distinct by trace.",
             "deterministic simulation: all ambient nondeterminism perturbed, outputs compared byte for byte",
             "Status and document compared with the unperturbed run, rejected scripts included."),
    "C12": e([(P, 16000)], [(P, 250000)],
             "3-8, sometimes up to 63 and rarely up to 571 steps in one process: conversions (good, rejected, with failing streams, of scripts that are nearly the same) interleaved with changes and removals of files; each conversion is repeated alone in a fresh process. Every sequence is non-trivial; distinct by trace.",
             "deterministic simulation: histories of calls against a fresh-process reference",
             "Result and document of every call compared with those of the same call alone on the same files."),
    "C13": e([(P, 12000)], [(P, 120000)],
             "2-4 threads convert at once, 2-5 schedules per case: 1-8 chosen switch points (clustered at the start) or random quanta; every basic block and intercepted call is a switch point. Non-trivial: more switches than threads; distinct by trace.",
             "deterministic simulation: seeded thread scheduler at basic-block granularity, results compared with the calls alone",
             "Sequentially consistent interleavings of basic blocks only: reorderings of weaker memory models are not simulated."),
    "C14": e([(P, 14000)], [(P, 250000)],
             "3-10 runs each fail the n-th allocation, all from the n-th on, or all larger than a size. Non-trivial: an allocation failed; distinct by trace.",
             "deterministic simulation: allocation failure at any allocation",
             "Exit 0 requires the golden document; anything else requires a prefix of it in the output."),
    "C15": e([(P, 30000)], [(P, 500000)],
             "4-6, sometimes 56, conversions of the same input in one process, successful, rejected, or with read, open, write and stream faults. Non-trivial: the process finished; distinct by trace.",
             "deterministic simulation: repeated calls under faults with exact accounting of descriptors and heap blocks",
             "Descriptors must return to the start after every call and the simulated heap must not grow with the number of calls."),
    "C16": e([(P, 60000)], [(P, 1000000)],
             "successful, rejected and failing conversions with write, open and close faults, crashes, allocation failures, odd environments and bystander files. Every case is non-trivial; distinct by trace.",
             "deterministic simulation: faults and crashes, whole file tree compared before and after",
             "Every other file of the simulated tree must be unchanged, no call that could change one may be made, standard output stays empty."),
    "C17": e([(P, 30000)], [(P, 500000)],
             "1-5 runs each make one or two of script, models and output fail (open, read at a byte, missing, a directory, write at a byte, close), with random delivery and environments; or a defect or missing flags. Non-trivial: the conversion failed; distinct by trace.",
             "deterministic simulation: I/O faults on any file at any byte, diagnostics checked against the injected ones",
             "Standard error must name one of the files that failed and no model that is fine; it must be empty after exit 0."),
    "C18": e([(P, 20000)], [(P, 200000)],
             "one or two of script and models get 2-4 versions (other, longer, shorter, malformed, absent); every combination is converted at rest, then 2-5 runs have the versions renamed into place just before chosen operations, with random delivery. Non-trivial: at least one replacement took place during the run; distinct by trace.",
             "deterministic simulation: another process's renames and removals placed between any two operations, results compared with those at rest",
             "Document and status must equal those of one combination of versions; files that several statements load are not replaced."),
    "C19": e([(P, 12000)], [(P, 200000)],
             "5 of 6 cases: a conversion (sometimes of damaged input) is run undisturbed and then 2-6 times with up to three persistent or transient faults, slow and interrupted delivery, exhausted memory or handles, a clock that stands, jumps or runs, locks held by others, a silent terminal as standard input, a file replaced before every other operation; 1 of 6: one of 24 kinds of input at size n and 4n. Non-trivial: all; distinct by trace.",
             "deterministic simulation: bounded liveness under persistent faults, work counted in basic blocks and operations of the simulated process",
             "Bounds: operations and basic blocks within 4 times those of the undisturbed run plus a fixed amount per partial operation; growth from n to 4n at most 8-fold (24-fold where quadratic growth is allowed)."),
}
