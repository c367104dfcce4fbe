#!/usr/bin/env python3
"""Author-time helper: (re)writes properties.jsonl from the table below."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                          "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
CO = "castep_outputs/"
CP = CO+"parsers/castep_file_parser.py"
RE_ = CO+"utilities/castep_res.py"
FW = CO+"utilities/filewrapper.py"
UT = CO+"utilities/utility.py"
TC = CO+"utilities/type_conv.py"

p("C01", "Ground-state results in a .castep file are reported exactly",
  "For every .castep output, the SCF convergence history, occupancies, final/free/0K/corrected/dispersion/solvation energies, finite-basis data, integrated spins, every flavour of force and stress table (with their atom identities) and the enthalpies are returned with exactly the printed values and signs, under the right label, atom or component, in file order. Repeated sections accumulate in order of appearance. Nothing that is not printed appears and nothing printed in these sections is lost.",
  ["inputs"], "all well-formed .castep texts with any number, order and repetition of result sections, any atoms/labels and any values that fit the columns",
  "tests feed one fixed sample per section; the guarantee is over all values, signs, widths, atom counts, optional columns and orders/repetitions of sections",
  [CP, RE_, TC, UT], [("block dispatch loop", CP+" parse_castep_file"), ("_process_scf/_process_forces/_process_stresses", CP), ("labelled_floats/get_numbers", RE_)],
  ["parse_castep_file(handle, filters)"])
p("C02", "Set-up sections in a .castep file are reported exactly",
  "For every .castep output, the build information, run times and efficiency, warnings, memory estimates, title, options (parameter tables), unit cell, atomic positions/velocities/labels/mixtures, initial spins, symmetry operations and constraints, species properties, pseudopotential reports, pair potentials, dispersion settings, k-points, target stress and applied field are returned with exactly the printed content, each under its own key, atom, species or index. A section of N rows gives N entries in order, whatever N is.",
  ["inputs"], "all well-formed .castep texts, any number of atoms, species, k-points, symmetry operations, options, and any values that fit the columns",
  "tests use one fixed sample per section with few rows; row counts, index widths, optional columns and value ranges are unbounded",
  [CP, RE_, TC, UT], [("block dispatch loop", CP+" parse_castep_file"), ("_process_* setup helpers", CP)],
  ["parse_castep_file(handle, filters)"])
p("C03", "Response and analysis sections in a .castep file are reported exactly",
  "For every .castep output, phonon frequencies and symmetry, dynamical matrices, Raman tensors, optical permittivities/polarisabilities/NLO, thermodynamics and atomic displacements, Mulliken/Hirshfeld/Born/orbital/bond populations, ELF, NMR tensors, elastic constants, band structure, dipoles, TDDFT, solvation, delta-SCF and Berry-phase results are returned with exactly the printed values, attributed to the q-point, atom, pair, state, spin or component they are printed against. No row is dropped, duplicated or attributed to a neighbour.",
  ["inputs"], "all well-formed .castep texts, any number of q-points, modes, atoms, bonds, bands, and any values that fit the columns",
  "tests use one fixed sample per section; optional columns, row counts and value ranges are unbounded",
  [CP, RE_, TC, UT], [("block dispatch loop", CP+" parse_castep_file"), ("_process_* analysis helpers", CP)],
  ["parse_castep_file(handle, filters)"])
p("C04", "MD and geometry-optimisation steps own exactly their own data",
  "When a .castep output records an MD run or a geometry optimisation, the result has one entry per step in file order, and every energy, force, stress, position, cell, minimiser table and MD observable appears in the entry of the step during which it was printed and in no other. The configuration before the first optimisation step is kept as the initial entry, and the final configuration is the one printed as final.",
  ["inputs", "histories"], "all step counts and all per-step section selections, all minimisers and ensembles",
  "tests contain runs of one or two steps; cross-step leakage depends on the history of sections seen before",
  [CP, UT], [("nested parse of MD/geom iteration blocks", CP+" parse_castep_file"), ("add_aliases", UT)],
  ["parse_castep_file(handle)['md'|'geom_opt']"])
p("C05", "Input files (.cell and .param) are read as written",
  "For every .cell or .param file, each keyword written with a value, and each block, is returned under its (case-insensitive) name with the value, unit and type that is written: integers, reals, rationals, booleans, vectors, text, units, and the structured blocks (lattice, positions with spin/mixture, species data, k-point lists/paths, symmetry, constraints, pseudopotential strings, developer code). Comments and blank lines never change the result, and neither does letter case of keywords, ordering of keywords, or the spacing and separator used.",
  ["inputs"], "all well-formed cell/param files", "tests cover one example per keyword; the guarantee quantifies over values, layouts, comments, case, ordering",
  [CO+"parsers/cell_param_file_parser.py", TC, RE_, UT], [("parse_cell_param_file", CO+"parsers/cell_param_file_parser.py"), ("determine_type/to_type", TC), ("strip_comments", UT)],
  ["parse_cell_file / parse_param_file"])
p("C06", "Trajectory files (.md, .geom, .ts) are read frame by frame, exactly",
  "For every .md, .geom or .ts file, the result has exactly one entry per frame in file order. Each frame holds exactly the time/energy/temperature/pressure/cell/stress/position/velocity/force data of that frame with the printed values and sign, keyed by atom, and no data from any neighbouring frame.",
  ["inputs"], "all frame counts, atom counts, optional line types and values", "tests use two or three fixed frames",
  [CO+"parsers/md_geom_file_parser.py", CO+"parsers/ts_file_parser.py", CO+"parsers/parse_utilities.py", RE_],
  [("parse_md_geom_file / parse_md_geom_frame", CO+"parsers/md_geom_file_parser.py"), ("parse_ts_file", CO+"parsers/ts_file_parser.py")],
  ["parse_md_file, parse_geom_file, parse_ts_file"])
p("C07", "Lazy trajectory access agrees with eager parsing for any access history",
  "For every .md/.geom file and every sequence of operations on the lazy reader (indexing by integer, negative integer or slice, iterating, next, restarting iteration, skipping, length and attribute queries), each frame it yields equals the frame with that number in the eagerly parsed file, and the number of frames agrees (also where the last blank line of the file is missing). An out-of-range request raises an index error and does not disturb later accesses.",
  ["inputs", "histories"], "all interleavings of reader operations over all well-formed trajectory files, with and without blank separators, for different headers",
  "the reader caches offsets and a cursor; tests exercise a few fixed accesses on one file",
  [CO+"tools/md_geom_parser.py", CO+"parsers/md_geom_file_parser.py"],
  [("frame offset arithmetic and cursor", CO+"tools/md_geom_parser.py")], ["MDGeomParser"],
  [("_next_frame / cursor", "frame the next iteration step will return", CO+"tools/md_geom_parser.py")])
p("C08", "Phonon and DOS files are read exactly",
  "For every .phonon and .phonon_dos file, the header counts, cell vectors, atoms with masses, every q-point with its weight, frequencies, intensities, gradients, eigenvectors/displacements, and every DOS row (total and per species) are returned with the printed values against the right q-point, mode, atom and species, in order. A file whose q-point data disagree with its own declared number of branches is rejected with an error instead of being returned.",
  ["inputs"], "all ion, branch, q-point counts and values", "tests use one fixed small file",
  [CO+"parsers/phonon_file_parser.py", CO+"parsers/phonon_dos_file_parser.py", CO+"parsers/parse_utilities.py", RE_],
  [("parse_phonon_file", CO+"parsers/phonon_file_parser.py"), ("parse_phonon_dos_file", CO+"parsers/phonon_dos_file_parser.py")],
  ["parse_phonon_file, parse_phonon_dos_file"])
p("C09", "Electronic spectra files (.bands, .tddft, .epme) are read exactly",
  "For every .bands, .tddft and .epme file, the header quantities, k-points with weights, per-spin eigenvalues, excitations with oscillator/overlap data and electron-phonon matrix elements are returned with the printed values, attributed to the right k-point, q-point, spin, band, mode and state, in file order, for spin-polarised and unpolarised calculations alike.",
  ["inputs"], "all counts of k-points, spins, bands, modes, states and all values", "tests use one fixed small file each",
  [CO+"parsers/bands_file_parser.py", CO+"parsers/tddft_file_parser.py", CO+"parsers/epme_file_parser.py"],
  [("parse_bands_file", CO+"parsers/bands_file_parser.py"), ("parse_tddft_file", CO+"parsers/tddft_file_parser.py"), ("parse_epme_file", CO+"parsers/epme_file_parser.py")],
  ["parse_bands_file, parse_tddft_file, parse_epme_file"])
p("C10", "Other property files are read exactly",
  "For every .magres, .efield, .elastic, .xrd_sf, .hug and .err file, each printed quantity (tensors per atom or pair, units, permittivities and oscillator strengths, elastic constants and strains, structure factors per reflection, Hugoniot columns, error messages with their call stack) is returned with the printed value against its own atom, pair, component or index. Rows are neither lost, merged nor reordered.",
  ["inputs"], "all row counts, atoms, values", "tests use one fixed small file each",
  [CO+"parsers/magres_file_parser.py", CO+"parsers/efield_file_parser.py", CO+"parsers/elastic_file_parser.py", CO+"parsers/xrd_sf_file_parser.py", CO+"parsers/hug_file_parser.py", CO+"parsers/err_file_parser.py"],
  [("parse_magres_file etc.", CO+"parsers/")], ["parse_magres_file, parse_efield_file, parse_elastic_file, parse_xrd_sf_file, parse_hug_file, parse_err_file"])
p("C11", "Formatted grid files are read exactly",
  "For every formatted density, potential, ELF or charge-difference file, the complete grid is returned, in file order, so that the value printed for a grid point is the value found for that grid point, with every spin component and vector component kept apart.",
  ["inputs"], "all grid sizes, spin treatments and values", "tests use one fixed file each",
  [CO+"parsers/parse_fmt_files.py"], [("_parse_generic_fmt helpers", CO+"parsers/parse_fmt_files.py")],
  ["parse_den_fmt_file, parse_pot_fmt_file, parse_elf_fmt_file, parse_chdiff_fmt_file"])
p("C12", "Fortran record navigation obeys record boundaries",
  "For every Fortran sequential unformatted file and every sequence of reading, skipping and rewinding records, the reader returns exactly the payload bytes of the record the cursor is on, moves by whole records only, reports the end of the file after the last record, and decodes typed values big-endian in order. Reading forward, going back n records and forward again returns identical data.",
  ["inputs", "histories"], "all record lengths (including empty) and all sequences of reader operations", "tests perform a fixed short script on one file",
  [CO+"bin_parsers/fortran_bin_parser.py", TC], [("record length markers", CO+"bin_parsers/fortran_bin_parser.py")], ["FortranBinaryReader"],
  [("file offset", "always at a record boundary between operations", CO+"bin_parsers/fortran_bin_parser.py")])
p("C13", "Binary output files are decoded exactly",
  "For every electrostatic-potential binary file and electron-phonon matrix-element binary file, the header fields, and every array element are returned with the exact stored value, at the right grid column, spin, k-point, q-point, mode, atom and component. A binary file whose own header is inconsistent with the expected layout raises an error.",
  ["inputs"], "all grid sizes, spin counts, k/q-point/mode/band counts and values", "tests use one fixed small file each",
  [CO+"bin_parsers/cst_esp_file_parser.py", CO+"bin_parsers/epme_bin_parser.py", CO+"bin_parsers/fortran_bin_parser.py", TC],
  [("parse_cst_esp_file", CO+"bin_parsers/cst_esp_file_parser.py"), ("parse_epme_bin_file", CO+"bin_parsers/epme_bin_parser.py")],
  ["parse_cst_esp_file, parse_epme_bin_file"])
p("S01", "Runs appended to one .castep file stay separate",
  "Parsing a .castep file to which several runs have been appended returns one result per run, in order, and each equals what parsing that run in a file of its own returns. Nothing from one run leaks into, overwrites or truncates another, also when the earlier run ended early, between two of its sections or within a step of its MD or geometry optimisation.",
  ["inputs", "histories"], "all numbers and kinds of runs (single point, MD, geometry optimisation, spectral...), including a previous run without finalisation block",
  "tests parse files with one or two fixed runs", [CP], [("run boundary handling", CP+" parse_castep_file")], ["parse_castep_file"])
p("S02", "Section filters select and never alter",
  "For every .castep file and every choice of section filter, the result is the restriction of the unfiltered result to the sections chosen: requested sections are complete and identical to those of the full parse, and unrequested sections are absent. (MD and geometry-optimisation steps are sections holding all that is printed in them, with SCF cycles if these are requested too; the MD summary is each step's summary alone.) Asking for more sections never removes or alters what fewer gave, and the named presets are nested (low within medium within high within full).",
  ["inputs", "configurations"], "all subsets of the section categories", "tests try a few filters on one file; there are 2^30 subsets",
  [CP], [("Filters flag checks", CP)], ["parse_castep_file(file, filters=...)"])
p("S03", "Every way of naming the same input gives the same result",
  "Parsing the same content (its lines ended by LF or CR LF) through a string path, a path object or an open handle, with the format-specific function, the generic single-file entry point with the parser given by name or function, or by file extension, yields the same data. An unknown extension or unknown parser name is reported as a ValueError, never silently parsed as something else, and a file opened by the library is closed again whether or not parsing succeeds, while a handle opened by the caller stays open.",
  ["inputs", "configurations"], "all formats x all input forms x all entry points, including failing parses", "tests cover single combinations",
  [UT, CO+"cli/castep_outputs_main.py", CO+"parsers/__init__.py", CO+"bin_parsers/__init__.py"], [("file_or_path", UT), ("parse_single", CO+"cli/castep_outputs_main.py")], ["parse_single and parse_* functions"])
p("S04", "Dumped output carries all the data",
  "For every parsed result and every output format, writing and reading back the dump returns the same data (up to the documented conversions: sequences, string keys and real/imag pairs in JSON and YAML), and the dump is valid JSON, YAML or (print and pprint, apart from default-dictionary wrappers) Python literal text. No two different entries of the parsed data are merged into one in the dump.",
  ["inputs", "configurations"], "all parseable results x json, yaml, pyyaml, ruamel, pprint, print", "tests compare one fixed dump per format",
  [CO+"utilities/dumpers.py", UT, CO+"cli/castep_outputs_main.py"], [("normalise/json_safe", UT), ("dumpers", CO+"utilities/dumpers.py")], ["parse_single(..., out_format), get_dumpers"])
p("S05", "The command line selects exactly the files asked for",
  "For every combination of seednames, explicit file arguments and include switches, the set of (file, type) pairs that is parsed is exactly: the explicitly named files under the type given, the seednames that are themselves existing files of a known type, and for other seednames the existing files seed.<type> of the included types (by switch or by the calling program) plus, when error files are included, the seed's per-process error files (seed.*.err). Other files in the directory, directories of matching name, or unusual characters in names (dots, spaces, brackets) or seeds in other directories never change that set.",
  ["inputs", "configurations"], "all directory contents, seednames (relative, absolute, dotted, bracketed) and switch combinations", "tests do not run argument handling on files at all",
  [CO+"cli/args.py"], [("parse_args", CO+"cli/args.py")], ["parse_args/extract_parsables and the castep_outputs command"])
p("S06", "The command line writes what the library parses",
  "For every set of input files the command (or parse_all) writes one well-formed document in the requested format, holding for a single file its parsed data and for several files every file's data under that file's name, equal to parsing each file on its own, to standard output or to a fresh requested output file. If any file cannot be parsed the command fails visibly rather than writing a partial result.",
  ["inputs", "configurations"], "all sets of files x formats x output targets, and failing inputs", "tests parse single files",
  [CO+"cli/castep_outputs_main.py", CO+"cli/args.py", CO+"utilities/dumpers.py"], [("parse_all", CO+"cli/castep_outputs_main.py")], ["castep_outputs command, parse_all"])
p("S07", "Parsing is a pure function of the file",
  "Parsing the same file always gives the same result whatever was parsed before, in whatever thread, with whatever hash seed, locale, working directory or logging level, and results already returned are never changed by later parsing. Parsers modify neither their input file nor any shared state, and mutating a returned result does not affect later results. A result can be copied or sent to another process (pickled) and arrives unchanged.",
  ["histories", "schedules", "configurations"], "all sequences and thread interleavings of parser calls over all formats, all hash seeds", "tests run each parser once in one process",
  [CP, UT, RE_, CO+"parsers/", CO+"tools/get_generated_files.py"], [("no module-level mutable state", CO)], ["all public parsers"])
p("S08", "A truncated output never yields data the full file contradicts",
  "If an output file is cut at any line boundary (a job killed mid-write), parsing either raises an error or returns only data that the complete file also gives at the same place; for frame and row structured results it is a prefix of the complete result. No value is invented, shifted or attributed elsewhere because of the cut.",
  ["crash_points", "inputs"], "every line boundary of every supported file format", "tests only parse complete files",
  [CP, FW, CO+"parsers/", CO+"bin_parsers/"], [("end-of-file checks while reading blocks", FW+" Block.from_re")], ["all public parsers on prefixes"])
p("S09", "Parsing always terminates, in effort linear in the file",
  "For every input, well-formed or corrupted (lines deleted, duplicated, swapped, spliced from other files, garbled), every parser returns or raises an exception after reading each line at most a small constant number of times. It never loops forever, never recurses without bound and never touches anything but the input.",
  ["inputs", "fault_sequences"], "all corruptions of all formats", "tests contain no corrupted files",
  [CP, FW, CO+"parsers/"], [("forward-only block scanning", FW)], ["line reads and executed-line budget of all public parsers"])
p("S10", "Line and block cursors never lose or repeat a line",
  "For every text and every sequence of reading, rewinding and block extraction on the file wrapper and line blocks, lines come back in file order, each exactly once except where rewound, the reported line number and name match the line last read, a block holds exactly the lines from its start to its (n-th) end line, and running out of file inside a block is an error unless allowed.",
  ["inputs", "histories"], "all texts and all operation sequences", "tests do not exercise the wrappers directly beyond doctests",
  [FW, UT], [("FileWrapper", FW), ("Block", FW)], ["FileWrapper, Block, log messages"],
  [("_pos/_lineno", "offset and number of the last line read", FW)])
p("S11", "Predicted output files depend only on the inputs' meaning",
  "For every cell/param description, the predicted set of files is the same whether given as paths or as already parsed data, in whatever hash order and however often it is asked, does not modify the given data, and every predicted name starts with the seedname (except pseudopotential files named in the cell file, on-the-fly potentials named after their species, and the fixed-name files current.dat, gsden.cube, den_dump*.dat and an explicitly named Born-charge file). Changing only the seedname renames the predictions and nothing else, and turning an output switch (write_..., calculate_..., ...) on adds its file and never removes another's: the prediction names the files which the task, switches, functional and pseudopotentials described call for, and no others.",
  ["inputs", "configurations"], "all cell/param descriptions and seednames", "tests check single parameters with one seed and one hash seed",
  [CO+"tools/get_generated_files.py"], [("get_generated_files", CO+"tools/get_generated_files.py")], ["get_generated_files"])
p("S12", "Flattened test output loses nothing",
  "For every nested result (whose keys are non-empty, distinct as text and do not hold the separator), the flattened form used for testing contains exactly one entry per leaf value, whose key spells the path to the leaf with the requested separator, so that distinct leaves stay distinct and no leaf value is changed. Testing mode (of the library and of the command) returns exactly this form of each run the parser gives.",
  ["inputs"], "all nested results and separators", "tests flatten no nested lists with other separators",
  [UT, CO+"cli/castep_outputs_main.py"], [("flatten_dict", UT)], ["flatten_dict, parse_single(testing=True)"])
p("S13", "Printed numbers become the nearest Python value of the right type",
  "Every number printed in any CASTEP notation (integers, reals with or without leading or trailing digits, exponents, rationals, logicals, or a whitespace-separated vector of them) is converted to the Python value that a correctly rounding conversion gives, keeping integers integers and booleans booleans, and every big-endian binary value to the exactly stored one. Text that is not such a number is never turned into one.",
  ["inputs"], "all numeric texts and byte strings", "tests have a handful of literals",
  [TC, RE_], [("to_type/determine_type/parse_bytes", TC), ("number regexes", RE_)], ["to_type, fix_data_types, determine_type, parse_bytes, get_numbers"])
p("S14", "Files embedded in a .castep output are read as if they stood alone",
  "When a .castep output carries copies of other output files between begin and end markers, each is returned under its format's name exactly as parsing the file on its own gives it, directly after the timings or anywhere else between sections. Sections before, between and after the copies are reported as without them, and the copies are left out unless the test extras are requested.",
  ["inputs", "configurations"], "all contents of the ten embedded formats, their orders and surroundings", "one test embeds one file",
  [CP, FW, CO+"parsers/"], [("BEGIN/END blocks", CP+" parse_castep_file"), ("file_or_path on blocks", UT)], ["parse_castep_file(...)['external_files']"])
p("S15", "Log messages can be formatted and point at the right file and line",
  "Every message logged during a parse can be formatted, whatever characters the name of the file holds. A message that gives a place gives the name of the file being parsed; where it gives a line, that is the number in the file of the line it quotes or, for other messages, of a line not before the one quoted last nor beyond what has been read; this also holds within appended runs, MD steps and geometry steps, for files opened or wrapped by the caller, and a logger made for any cursor (file, wrapper, nested block) gives the line it read last and the level asked for. The command (-L/--log) writes whole messages to standard error, none below the level asked for (by default WARNING), says nothing about a sound .castep file at WARNING or above, warns of a trajectory without header at WARNING and below, and quotes its lines at DEBUG.",
  ["inputs", "configurations"], "all file names, contents (sound or damaged), ways of passing the file, and log levels",
  "tests look at the text of one warning; line numbers depend on everything read before, and names and levels are unbounded or combine",
  [UT, FW, CP, CO+"cli/castep_outputs_main.py", CO+"cli/args.py", CO+"tools/md_geom_parser.py"],
  [("log_factory", UT+" log_factory"), ("lineno/name of FileWrapper and Block", FW), ("loglevel", CO+"cli/castep_outputs_main.py parse_single")],
  ["records of the root logger", "standard error of castep_outputs -L LEVEL"])
p("S16", "The helpers parsers are built with do what they document for any input",
  "strip_comments drops lines that start with a marker (or, inline, cuts each line at its first marker), trailing blanks and empty lines, keeps all else in order, whatever characters the markers consist of and however they are passed; normalise_key and normalise_string give words joined by single underscores (lower case) or blanks; strip_nones, filter_underscore, add_aliases, stack_dict, fix_data_types and get_only change, keep, refuse and leave alone exactly the entries they document, with their include, exclude, replace and inplace options; get_atom_parts and AtomLabel split species, tag and label, atreg_to_index the species and index; the patterns of labelled_floats and gen_table_re match lines of the layout described and give each number under its label, and no line that lacks a part; file_or_path opens paths as asked and closes them even on errors, and leaves handles of the caller open.",
  ["inputs", "configurations"], "all texts, markers, keys, dictionaries, labels, layouts and options in the documented domain of each helper (at least one marker; no alias of an alias)",
  "the doctests show one example each", [UT, RE_, TC, CO+"processing/processing.py"],
  [("strip_comments and dictionary helpers", UT), ("labelled_floats/gen_table_re/get_atom_parts", RE_), ("fix_data_types", TC)],
  ["return values and changed arguments of each helper"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
