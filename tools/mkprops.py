#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
J = "jpylyzer/jpylyzer.py"; B = "jpylyzer/boxvalidator.py"; BC = "jpylyzer/byteconv.py"
E = "jpylyzer/etpatch.py"; M = "jpylyzer/mix.py"; S = "jpylyzer/shared.py"; C = "jpylyzer/config.py"
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe] if isinstance(observe, str) else observe, "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": "anything that outlives one analysis", "where": "module and class level of the package"}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "One unreadable file never spoils the batch",
    "When some of the files of a run cannot be read (they vanish after they were selected, permission is denied, the disk reports an I/O error, memory runs out while they are opened, mapped or read), the run still completes with one report per selected file in the order of selection. An affected file is reported with success False, isValid False and a failure message that says whether it was a memory or an I/O problem; every other file's report is the same as when that file is analysed alone.",
    ["fault_sequences", "inputs"], "every set of input files, every subset of them hit by any read-side fault at any operation of its analysis",
    "Tests analyse at most one readable file at a time; the failing operation, the errno and its position in the batch form a product space that only injected faults can reach.",
    [J], [("per-file exception boundary", J + ": checkOneFile"), ("batch loop", J + ": checkFiles"), ("failure message classification", J + ": checkOneFile except clause")],
    "XML report on stdout, exit status")

add("C02", "A failure in mid-analysis is reported, never turned into a wrong result",
    "If memory runs out or a read fails at any instant of the analysis of a file, then either the failure is reported (success False, isValid False, no properties presented as if they were complete) or the result is exactly the one of an undisturbed analysis. A result with success True whose verdict, tests, properties or warnings differ from the undisturbed ones is never produced.",
    ["fault_sequences", "crash_points", "inputs"], "every input file, every single instant of its analysis at which memory or the storage can fail",
    "The failing instant is chosen by the environment; tests cannot make the n-th step of an analysis run out of memory.",
    [J, B, BC, E], [("broad except clauses around decoding, parsing and lookup", BC + ", " + E + ", " + B + ": validate_xmlBox, validate_uuidBox, validate_icc"), ("per-file exception boundary", J + ": checkOneFile")],
    "element returned for the file / its XML report")

add("C03", "Report delivery: what reaches stdout is a prefix, complete when status is 0",
    "However the output device behaves (short writes, temporarily not accepting data, full disk, closed pipe, I/O errors), the bytes that reach standard output are always a prefix of the bytes an undisturbed run delivers, with nothing lost, repeated or reordered in between. A run that ends with exit status 0 has delivered the whole report exactly once.",
    ["fault_sequences", "inputs"], "every set of input files and options, every output-device fault sequence",
    "Tests capture stdout in memory, which never fails or writes short.",
    [J], [("UTF-8 writer over the binary stdout", J + ": checkFiles"), ("element serialisation", J + ": writeElement")],
    "bytes accepted by the simulated output device, exit status")

add("C04", "Results do not depend on what the process analysed before",
    "In one process, the result of analysing a file with given options is the same whatever analyses came before it (other files, other formats or options, analyses that failed or were interrupted), and a result already returned is not changed by later analyses. A batch check reports exactly the files selected by its own arguments, whatever batches the process checked before.",
    ["histories", "inputs", "fault_sequences"], "every sequence of analyses (files, formats, options, failures) in one process",
    "Order-dependent state shows only for particular sequences; tests start from a fresh interpreter and make one call.",
    [J, B, C, E], [("module-level list of files to analyse", J + ": EXISTING_FILES, findFiles, checkFiles"), ("module-level options", C), ("class-level tables", B + ": BoxValidator.typeMap")],
    "returned elements, XML on stdout", "process-wide module state")

add("C05", "Concurrent analyses in threads do not influence each other",
    "When several threads of one process analyse files at the same time, with the same or different files, formats and options, every interleaving gives each call exactly the result it gives when it runs alone. Every call finishes.",
    ["schedules", "inputs"], "every interleaving of any number of concurrent single-file analyses",
    "Interleavings are chosen by the scheduler; tests are single-threaded.",
    [J, B, BC, E, C, M], [("single-file entry point used as a library call", J + ": checkOneFile"), ("state carried between nested validators", B + ": BoxValidator")],
    "returned elements per thread", "process-wide module state")

add("C06", "Every selected file is reported exactly once, and nothing else",
    "Every regular file that a path argument selects (named directly, matched by its wildcard, or found in the tree below it in recursive mode) and that exists throughout the run is reported exactly once for that argument, whatever order the file system lists names in, whatever the names and nesting depth are, and whatever other files are created or deleted meanwhile. Arguments are processed in the order given, and no other path (directories, pipes, sockets, unmatched files) is reported.",
    ["inputs", "schedules", "fault_sequences"], "every directory tree, argument list, directory enumeration order and concurrent creation or deletion of other files",
    "Tests use the fixed checkout and whatever enumeration order the local file system has.",
    [J], [("path argument expansion", J + ": findFiles, getFiles, getFilesFromTree, getFilesWithPatternFromTree"), ("batch loop", J + ": checkFiles")],
    "file elements in the XML report, operations on the simulated file system")

add("C07", "Analysis of any damaged file ends after bounded work",
    "Whatever bytes are stored in the file (bit flips, torn, lost, zeroed, duplicated or misplaced sectors, truncation, any field overwritten with an extreme value), its analysis ends, and the work done and memory used are limited by a fixed bound for files of that size rather than by the values found in damaged fields.",
    ["inputs", "fault_sequences"], "every stored-data fault on every image, for every format and option set",
    "A hang needs one particular damaged field value; tests contain no damaged JP2.",
    [B, BC], [("marker and box walking loops", B + ": validate_JP2, validate_contiguousCodestreamBox, validate_tilePart, _getBox, _getMarkerSegment"), ("packet length decoding", B + ": _parse_ipl"), ("caps on counts read from the file", B + ": validate_icc, validate_paletteBox, validate_contiguousCodestreamBox")],
    "executed-step counter of the simulated process")

add("C08", "Lost or zeroed image data is never reported as valid",
    "A conforming image is reported valid; after losing its tail anywhere before the end of the codestream (cut off or replaced by zeros), losing a run of bytes from within a tile part whose length is recorded, or having a mandatory structural element (signature, file type, header, start or end of the codestream, size, capability, coding or quantisation segment, start or data marker of a tile part), or the part of one that identifies it or cannot be zero, overwritten by zeros, it is never reported valid.",
    ["fault_sequences", "inputs", "crash_points"], "every conforming image and every such interrupted or lost write",
    "Tests parse no image at all; the interruption point ranges over every byte of every image.",
    [B], [("end-of-codestream and tile-part chaining tests", B + ": validate_contiguousCodestreamBox, validate_tilePart"), ("required box and marker tests", B + ": validate_JP2, validate_jp2HeaderBox"), ("verdict", B + ": _isValid")],
    "isValid in the report")

add("C09", "Damaged content gets a verdict, never an internal error",
    "A file that can be read is always analysed to a verdict (success True with isValid True or False), whatever damage its stored bytes have suffered and whichever format and options are chosen; the analysis never ends in an internal error and never takes the run down.",
    ["inputs", "fault_sequences", "configurations"], "every stored-data fault on every image, for every format and option set",
    "An internal error needs a particular damaged value in a particular field; tests contain no damaged JP2.",
    [B, BC, M, J], [("validators for boxes and marker segments", B + ": validate_*"), ("MIX generation", M + ": Mix.generateMix"), ("per-file exception boundary", J + ": checkOneFile")],
    "statusInfo in the report, exit status")

add("C10", "Standard output is always one well-formed, complete XML report",
    "Whatever the stored bytes, the file names (any byte sequence the file system accepts) and the options, a run that is not interrupted writes exactly one well-formed UTF-8 XML document, in which each file has its file information, status, verdict, tests, properties, optional properties extension and warnings, once each and in that order. Diagnostics never appear in it.",
    ["inputs", "fault_sequences", "configurations"], "every stored content, file name, read fault and option set",
    "Ill-formed output needs unusual bytes in particular fields or names.",
    [J, E, BC], [("text cleaning", BC + ": bytesToText, removeControlCharacters; " + J + ": stripSurrogatePairs"), ("tree to text conversion", E + ": makeHumanReadable"), ("document assembly", J + ": checkFiles, writeElement")],
    "bytes on stdout")

add("C11", "An interrupt stops the run at once and never becomes a verdict",
    "If the user interrupts a run at any instant, the interrupt is never swallowed: the run ends because of it, analyses no further file, and no verdict or property in the output differs from the undisturbed run's. The output is a prefix of the undisturbed run's output, in which every report that was completed before the interrupt is preserved.",
    ["crash_points", "inputs"], "every instant of every run",
    "The instant of the signal is not under a test's control.",
    [J, B, BC, E], [("broad except clauses", BC + ", " + E + ", " + B), ("per-file exception boundary", J + ": checkOneFile"), ("batch loop and output writer", J + ": checkFiles, writeElement")],
    "exception leaving the program, bytes on stdout, operations after the interrupt")

add("C12", "Analysis leaves no trace on storage",
    "A run never creates, modifies, renames or deletes anything on the file system, starts no other program and opens no network connection, whether it succeeds, meets damaged content or read faults, is interrupted or is killed. The analysed files, and the rest of the storage, are byte-identical afterwards, so a run repeated after a crash gives the same report.",
    ["inputs", "fault_sequences", "crash_points"], "every run, fault and interruption point",
    "Tests do not compare the storage before and after, nor on failure paths.",
    [J, B, S], [("read-only opening and mapping", J + ": fileToMemoryMap, fileToBytes"), ("batch loop", J + ": checkFiles")],
    "recorded operations on the simulated file system, storage contents before and after")

add("C13", "Every analysis releases the file, however it ends",
    "When the analysis of a file is over (valid, invalid, damaged, failed because of a read fault or of lack of memory, or interrupted) no open file, descriptor or memory mapping of it remains once its result has been handed over. The number of open resources in a batch therefore does not grow with the number of files.",
    ["fault_sequences", "histories", "inputs"], "every sequence of analyses with every read-side fault",
    "Leaks on failure paths need the fault at the right operation.",
    [J], [("mapping and closing", J + ": fileToMemoryMap, checkOneFile")],
    "live handles and mappings in the simulated file system after each analysis")

add("C14", "The way the bytes are obtained does not change the result",
    "The same stored bytes give the same report whether the platform maps files in the POSIX way, in the Windows way or cannot map files at all, and whether reads return all bytes at once or in arbitrary short pieces. This includes empty and one-byte files and every failure report.",
    ["configurations", "fault_sequences", "inputs"], "every image, intact or damaged, every access path and every pattern of short reads",
    "Tests run on one platform with one access path.",
    [J, B], [("platform-dependent mapping", J + ": fileToMemoryMap"), ("fallback without mapping", J + ": fileToBytes, NO_MMAP_LIB"), ("slicing of the content", B)],
    "returned element / XML report")

add("C15", "A file replaced during the run is judged as one version",
    "If a file is atomically replaced by another version (or by nothing) at any moment while the run is going on, its verdict, tests, properties and warnings are exactly those of one of the versions that existed, never of a mixture, or the file is reported as unreadable.",
    ["schedules", "crash_points", "inputs"], "every pair of versions, every moment of one or more replacements",
    "The moment of the replacement relative to the analysis is a schedule that tests do not control.",
    [J, B], [("single open and mapping per analysis", J + ": checkOneFile, fileToMemoryMap")],
    "returned element / XML report")

add("C16", "Trouble with the diagnostics channel never changes the report",
    "Diagnostics go to standard error only, and the report, the verdicts and the exit status are the same when standard error works and when it is closed, full, or cannot encode the message.",
    ["fault_sequences", "inputs"], "every fault of the diagnostics channel at every message",
    "Tests have a working stderr.",
    [S, J, B], [("warning printer", S + ": printWarning"), ("callers", B + ": validate_unknownBox; " + J)],
    "bytes on stdout with and without stderr faults, exit status")

add("C17", "The verdict agrees with the listed test outcomes",
    "A file is reported valid if and only if its analysis succeeded and none of its listed tests failed; a test that fails anywhere in the file, however deeply nested or repeated, is listed and makes the file invalid. A failed analysis is never reported valid.",
    ["inputs", "fault_sequences", "configurations"], "every intact, damaged or faulted file, every option set",
    "Needs every combination of failing tests, which only damaged files produce.",
    [B, J, E], [("verdict from the test tree", B + ": _isValid, testFor"), ("collection of nested results", E + ": appendIfNotEmpty")],
    "isValid, tests and statusInfo in the report")

add("C18", "Reporting options never change the verdict",
    "For every file, intact or damaged, the verdict and the set of failed tests are the same for every combination of the reporting options (verbose, plain or pretty-printed output, extraction of null-terminated metadata, packet markers, MIX); the report differs only in what the option is meant to add.",
    ["configurations", "inputs", "fault_sequences"], "every stored content and every pair of option sets",
    "A product of options and damaged contents.",
    [B, J, M], [("verbose test listing", B + ": testFor"), ("option plumbing", J + ": main, checkFiles, checkOneFile"), ("null-terminated XML", B + ": validate_xmlBox, validate_uuidBox")],
    "isValid, tests, properties in the report")

add("C19", "The report does not depend on locale, console encoding or hash seed",
    "The bytes written to standard output are the same UTF-8 document whatever encoding and newline convention the console stream has, whatever the buffer size of the output, and whatever the hash randomisation of the interpreter.",
    ["configurations", "inputs"], "every console encoding, newline mode, buffer size and hash seed, every input",
    "Tests run in one locale.",
    [J], [("UTF-8 writer over the binary stdout", J + ": checkFiles")],
    "bytes on stdout")

add("C20", "File information is true for any clock, size and timestamp",
    "The report of a readable file states its name, its absolute path, its size in bytes at the time of the run and its modification time as local time, for every timestamp the file system can store; a timestamp that cannot be represented as a date neither aborts the run nor affects the verdict. Other files' information is not affected.",
    ["inputs", "configurations", "fault_sequences"], "every timestamp (before 1970, beyond year 9999, fractional), size, path form and time zone",
    "Tests see only the timestamps of the checkout.",
    [J], [("file information block", J + ": checkOneFile")],
    "fileInfo in the report")

add("C21", "Reported properties equal the values stored in the file",
    "For every image whose structure is intact (lengths and types of boxes and marker segments fit), whatever values its fields hold and whichever whole boxes, segments or tile parts were lost, repeated or moved, each property reported (boxes, ICC profile, resolution, codestream header, tile parts, packet lengths) equals the value stored at the place ISO/IEC 15444 gives it, in file order, with nothing missing, added or taken from another element or file, however the bytes are obtained.",
    ["inputs", "configurations", "fault_sequences"], "every image with intact structure, every value of every field, every option, every way of reading",
    "Tests compare a few properties of a few images; the space of values and structures is unbounded.",
    [B, J, "jpylyzer/byteconv.py"], [("field decoding", B + ": validate_*"), ("names of values", J + ": dictionary maps and remapping"), ("byte conversion", "jpylyzer/byteconv.py")],
    "properties in the report")
add("C22", "Exactly the violated requirements are reported as failed tests",
    "For every image whose structure is intact, whatever values its fields hold and whichever whole boxes, segments or tile parts were lost, repeated or moved, a test documented in the user manual is reported False exactly when the stored values or structure violate its condition, at the element concerned and once for each violation; in verbose mode all tests that apply are listed with their outcome; isValid is True exactly when none fails.",
    ["inputs", "configurations", "fault_sequences"], "every image with intact structure, every value of every field, every option, every way of reading",
    "Tests look at the verdict of a few images; which of some 200 conditions fire for which values is unbounded.",
    [B, J], [("tests", B + ": validate_*, testFor"), ("collection", J + ": checkOneFile")],
    "tests and isValid in the report")
add("C23", "MIX output carries the values of the image",
    "With --mix 1 or 2, the block written for a valid JP2 or JPH image has exactly the elements of that MIX version, in its order, and each value (format, compression, dimensions, colour space and profile, codec, tiles, layers, levels, capture metadata from XMP, sampling frequency, bits and samples per pixel) is that of the image, in the unit the version demands; an image that is not valid or could not be analysed gets an empty block.",
    ["inputs", "configurations", "fault_sequences"], "every valid image, every XMP packet, both MIX versions",
    "No test looks at the values of the MIX block.",
    [M, J], [("MIX generation", M + ": Mix")],
    "propertiesExtension in the report")
add("C24", "Every report conforms to the published output schema",
    "Whatever images the run is given (conforming, with changed values, structurally edited, damaged, unreadable, not images at all), whatever storage faults occur and whichever options are set, the report on standard output is valid according to the output schema (XSD) that it names in its schemaLocation and that the tree publishes in its folder xsd: element order, number of occurrences, enumerations and data types included.",
    ["inputs", "fault_sequences", "configurations"], "every image, damage, read fault and option set that leads to a report",
    "Tests validate the reports of a dozen sample images; which elements are left out, empty or hold unusual numbers depends on values and damage without bound.",
    [B, J, "jpylyzer/etpatch.py", "xsd/jpylyzer-v-2-2.xsd"], [("order and presence of properties", B + ": addCharacteristic in validate_*"), ("values to text", "jpylyzer/etpatch.py: makeHumanReadable"), ("report skeleton", J + ": checkOneFile, checkFiles"), ("schema", "xsd/jpylyzer-v-2-2.xsd")],
    "the whole report against the schema it names")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
