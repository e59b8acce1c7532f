#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

GOLD = "The existing tests compare a dozen fixed binaries with golden .sym files (and several of those need the network); "

prop("C01", "Every debug-info function becomes one FUNC with its address, size and name",
 """For every well-formed ELF, Mach-O, PE-with-DWARF or PDB input the output holds exactly one FUNC record for each non-zero
 module-relative start address at which the debug information describes a function (every contiguous range of a split
 function counts on its own), with that function's size in bytes and its name, and no FUNC record at any other address
 (placeholder functions made from PE exception data are covered by C20).
 Where functions of different extent share a start address the one described first is kept and its record is flagged 'm';
 a function that shares its start with no other function is not flagged.
 FUNC and PUBLIC records come in strictly increasing address order.""",
 ["inputs", "configurations"], "all function sets: counts, orders, gaps, shared starts, split ranges, load addresses, word sizes, endiannesses, DWARF versions, with and without --inlines",
 GOLD + "they never vary function order, duplicates, load address, class or endianness.",
 ["src/collector.rs", "src/object_info.rs", "src/symbol.rs"],
 [("one map entry per function address, first wins", "Collector::collect_function"), ("ordered map printed in order", "ObjectInfo Display / Symbol Display")],
 ["FUNC records of the .sym output"])

prop("C02", "Line records give every code address its source file and line",
 """Without --inlines, every address of a function that the debug line table covers resolves, through the line records under its FUNC,
 to the file and line of the outer function at that address: the line-table row's own, or the call site's for code inlined into the function,
 with positions of line number 0 left out so that the preceding position extends over them.
 With --inlines it resolves to the file and line of the innermost inlined function there.
 Line records of a FUNC are in increasing address order, do not overlap, have positive length, reach exactly to the next record or to the end of the function,
 and without --inlines two successive records never repeat the same file and line.""",
 ["inputs", "configurations"], "all line tables and inline trees over all functions, every address of every function, with and without --inlines",
 GOLD + "no test checks the address-to-line function itself, line 0 rows, rows splitting at inline boundaries or unsorted rows beyond one unit test.",
 ["src/collector.rs", "src/line.rs", "src/source.rs"],
 [("self-line/call-line separation", "Collector::collect_function_with_inlines_recursive"), ("line-0 skipping and de-duplication", "Collector::collect_function_without_inlines"), ("sorting and length inference", "Lines::finalize")],
 ["line records of the .sym output"])

prop("C03", "INLINE records reproduce the inline call stack of every address",
 """With --inlines, for every code address the INLINE records under its FUNC that contain the address have nesting levels 0..k-1, each exactly once,
 and the one at level d names (through its INLINE_ORIGIN) the d-th inlined function on the stack there and the file and line of its call site; addresses outside inlined code are in no INLINE range.
 The ranges of one record are sorted and disjoint and records are ordered by first address and then nesting level. An inlined function has one INLINE_ORIGIN record, however often it is inlined (in the dump of a single file).
 Without --inlines no INLINE or INLINE_ORIGIN record is written.
 (ELF, Mach-O and PDB input; a PE without PDB is always dumped without inline records.)""",
 ["inputs", "configurations"], "all inline trees: depth, siblings, several ranges per site, split functions, repeated sites and origins, adjacent ranges",
 GOLD + "inline output is only compared on two optimised builds of one 20-line program.",
 ["src/collector.rs", "src/line.rs", "src/inline_origins.rs", "src/object_info.rs"],
 [("inline range/call line matching", "Collector::collect_function_with_inlines_recursive"), ("range merging and ordering", "Lines::ensure_order, Lines Display"), ("origin interning", "InlineOrigins::get_id")],
 ["INLINE, INLINE_ORIGIN records"])

prop("C04", "PUBLIC records cover exactly the symbols outside the dumped functions",
 """Every function symbol of the symbol tables (ELF .symtab and .dynsym, Mach-O nlist, PE exports, PDB publics) whose module-relative address lies neither at the start of nor inside a FUNC
 (nor inside the extent of a symbol listed before it) gets one PUBLIC record at that address named after the first symbol listed there and flagged 'm' exactly when further symbols are listed at the same address; symbols of compiler-generated constants (names starting with ??_C, __real@, __xmm@ or __ymm@) get none.
 In ELF output each executable section whose start address carries no other record adds a PUBLIC named '<SECTION ELF section in FILE>', and in PE/PDB output one PUBLIC named '<unknown in FILE>' follows at the end of the record with the highest address (one past it if that record has no size).
 No other PUBLIC record is written.""",
 ["inputs"], "all symbol tables: aliases, duplicates across tables, symbols at, inside, just before and just after functions, data symbols, unnamed symbols, section layouts, load addresses",
 GOLD + "boundary positions, aliases, constants and section symbols are exercised only as they happen to occur there.",
 ["src/collector.rs", "src/symbol.rs"],
 [("inside test and occupied entry handling", "Collector::collect_publics, is_inside_symbol"), ("constant filter", "should_skip_symbol"), ("synthetic section symbols", "add_executable_section_symbols, append_dummy_symbol_pe_pdb")],
 ["PUBLIC records"])

prop("C05", "The MODULE and CODE_ID lines identify the module",
 """The first line is 'MODULE OS CPU DEBUGID NAME' with OS Linux, Mac or windows for ELF, Mach-O and PE/PDB input, the CPU of the object, its Breakpad debug identifier
 (build id, or hash of the code section when there is none; Mach-O UUID; CodeView GUID in upper case plus age in lower-case hexadecimal) and a name without directories: the soname or Mach-O install name if there is one, else the PDB name for Windows modules, else the input's file name.
 An 'INFO CODE_ID' line follows exactly when the object (for a PDB: its PE) has a code identifier and gives that identifier in upper case, followed for PE input or a PDB with its PE by the PE's file name.""",
 ["inputs", "configurations"], "all identifiers (short, long, absent build ids, UUIDs, GUIDs, ages), architectures, file names and embedded names",
 GOLD + "each format is represented by one or two fixed identifiers.",
 ["src/object_info.rs", "src/windows/pdb.rs", "src/platform.rs", "src/linux.rs", "src/mac.rs"],
 [("header fields", "ObjectInfo::from_object, ObjectInfo Display"), ("base name extraction", "file_name_only, win_path_file_name")],
 ["MODULE and INFO CODE_ID lines"])

prop("C06", "STACK records reproduce the unwind information; --check-cfi demands it",
 """For every ELF or Mach-O object with call frame information, every address inside a frame description gets from the STACK CFI records exactly the unwind rules its call frame program establishes there, and no address outside one gets any;
 a PDB dumped with its x86_64 PE, and an x86_64 PE on its own, get the STACK CFI records for the PE's exception data, and a PDB with frame data gets one STACK WIN record per entry with that entry's fields.
 With --check-cfi an input for which no STACK record can be produced makes the command fail with a non-zero exit status and write no symbol file, and any other input is dumped as without the option.""",
 ["inputs", "configurations"], "all call frame programs over the supported registers and rules, all address layouts, presence or absence of unwind information in either file of a pair",
 GOLD + "one test covers --check-cfi, on one PDB.",
 ["src/object_info.rs", "src/dumper.rs"],
 [("unwind source selection", "get_stack_info"), ("CFI requirement", "store")],
 ["STACK records, exit status, output files"])

prop("C07", "Every symbol file written is well formed and self-consistent",
 """Whatever names, paths and identifiers the input contains (control characters, line breaks, blanks, empty or very long strings, invalid UTF-8), every line of a written symbol file parses as a Breakpad MODULE, INFO, FILE, INLINE_ORIGIN, FUNC, INLINE, line, PUBLIC or STACK record with all of its fields present, in that order of sections.
 Every file number and inline-origin number used is declared exactly once, FILE and INLINE_ORIGIN numbers run from 0 without gaps, and in the dump of a single file without functions of different extent at one start address every declared file and origin is referenced by some record and no two FILE records carry the same path, unless path mapping or the removal of control characters made them equal.
 Line and INLINE records lie inside the address range of their FUNC whenever the line rows and inlined calls of the debug information lie inside the functions they belong to.""",
 ["inputs", "configurations"], "all strings in every name position of every input format, all program shapes, with and without --inlines, single and merged inputs",
 "Tests only parse well-behaved outputs; only inline origins have a unit test for line breaks.",
 ["src/object_info.rs", "src/symbol.rs", "src/line.rs", "src/source.rs", "src/inline_origins.rs"],
 [("record formatting", "Display impls"), ("consecutive file ids", "SourceFiles::get_true_id"), ("sanitising", "InlineOrigins::demangle_and_sanitize")],
 ["whole .sym output"])

prop("C08", "FILE records carry the full, normalised source paths",
 """The path of a FILE record is the file name joined to its directory, joined to the compilation directory when the directory is relative; for ELF input it is then resolved against the local file system (symbolic links followed) when the file exists there and otherwise normalised lexically ('.' and '..' components and doubled slashes removed), while Mach-O, PE and PDB paths are kept as joined.
 Windows paths are recognised as absolute with a drive letter, a leading backslash or a leading slash, and joined with a backslash unless the left part is an absolute Unix path.
 An absolute file name is taken as it is. Names and directories that are not UTF-8 are decoded with U+FFFD for the invalid bytes (the compilation directory as Latin-1 instead).
 Source files of different paths never share a FILE record and one source file of a module has a single FILE record, whatever the bytes of their names.""",
 ["inputs"], "all combinations of compilation directory, directory and file name (absolute, relative, empty, dotted, non-ASCII, non-UTF-8), all platforms, files present or absent on disk",
 "Unit tests cover a dozen joins; no test has two files that differ only in a non-UTF-8 byte, nor files that exist on disk through links.",
 ["src/source.rs", "src/platform.rs", "src/utils.rs"],
 [("joining", "SourceFiles::get_path, Platform::join_paths"), ("normalising", "utils::normalize_path"), ("identity of files", "SourceFiles::get_id cache")],
 ["FILE records, line records resolved to paths"])

prop("C09", "Path mappings rewrite file paths by the configured rules, first match wins",
 """Each source path is rewritten by the first rule whose regular expression matches it (and whose file list, if any, contains it), taking first the mapping file's rules with file lists, then its other rules, then the command line's, each in the order given; {N} yields the N-th capture group, {name} the variable (the command line overriding the mapping file), {digest}/{DIGEST} the lower/upper case SHA-512 of the file's contents, all other text is literal.
 A rule whose template refers to a group that did not take part in the match does not apply, and a path no rule applies to (or whose digest cannot be computed) stays as it was.
 An invalid configuration (unknown placeholder, bad regular expression, unequal numbers of sources and destinations, variable without '=', unreadable mapping file) makes the command fail without writing output.
 (ELF, Mach-O and PDB input; paths of a PE dumped without PDB are not mapped. Command-line rules see the command line's variables only.)""",
 ["inputs", "configurations"], "all rule sets, templates, variables, file lists and paths",
 "Two unit tests with a fixed configuration.",
 ["src/mapping.rs", "src/source.rs", "src/main.rs"],
 [("template compilation and expansion", "PathMappingGenerator::new/apply"), ("rule order", "PathMappings::new, get_mappings_from_file"), ("result cache", "PathMappings::map")],
 ["FILE records, exit status"])

prop("C10", "Merging files of one module keeps every symbol, line and file reference",
 """When several inputs have the same debug identifier (stripped binary, debug file, partial debug files) one module is written: at each address a FUNC of any input wins over a PUBLIC, a PUBLIC lying inside a FUNC of another input is dropped (one inside the extent of another input's sized symbol may be), real symbols win over synthetic ones (section symbols, and placeholder functions of a PE, which take the name of a PUBLIC at their address), and every other FUNC, PUBLIC and STACK record of the inputs is present.
 Every line and INLINE record of the merged module resolves to the same file path, line number, origin name and nesting level as in the output of its own input.
 The module takes its name from a stripped input (one without debug information) if there is one, its code identifier (with the PE's file name) from any input that has one, and, where the inputs do not contradict each other, the result is the same, up to FILE and INLINE_ORIGIN numbering, 'm' flags and order of STACK records, for every order of the arguments and every -j.""",
 ["inputs", "schedules", "configurations"], "all splits of a module's information over two or more files, all argument orders and job counts",
 "One test merges a stripped and a debug file where only one side has FILE records.",
 ["src/object_info.rs", "src/source.rs", "src/inline_origins.rs", "src/symbol.rs", "src/dumper.rs"],
 [("record merging", "ObjectInfo::merge"), ("file id remapping", "SourceMap::merge, Symbol::remap_lines/remap_inlines"), ("origin remapping", "merge_inline_origins")],
 ["merged .sym output"])

prop("C11", "Dumping several files terminates and loses no module, for every -j and schedule",
 """A run over any number of input files with any -j value and any order in which the files become readable terminates, and with --store writes for every distinct module exactly the symbol file a run over that module's files alone writes.
 An input that cannot be read, parsed or stored neither blocks the run nor affects the other modules' files, and makes the exit status non-zero; the exit status is zero when everything was dumped.""",
 ["schedules", "inputs", "configurations", "fault_sequences"], "all numbers of files and jobs (including 0 and more jobs than files), all completion orders, all positions and kinds of failing inputs",
 "The only multi-file test uses two files of one module and default scheduling; no test can settle absence of deadlock over schedules.",
 ["src/dumper.rs", "src/action.rs", "src/main.rs"],
 [("work queue and poisoning", "several_files, consumer, send_store_jobs"), ("completion counter", "consumer")],
 ["process termination, exit status, files in the store"])

prop("C12", "Symbols are stored as NAME/DEBUGID/NAME.sym and identical on every output path",
 """With --store DIR the symbols of a module are written to DIR/NAME/DEBUGID/NAME.sym, where the file name drops a '.pdb' extension in any letter case before '.sym' is added and the directory name turns the compressed extensions pd_, ex_ and dl_ (in any letter case) into pdb, exe and dll; missing directories are created and an existing file is replaced.
 -o FILE writes the same bytes to FILE, '-o -' or no option to standard output, and -o together with --store to both; nothing else is written to standard output.""",
 ["inputs", "configurations"], "all module names and identifiers, pre-existing store contents, all output option combinations",
 "No test looks at a store path with unusual names or at agreement between output modes.",
 ["src/utils.rs", "src/dumper.rs", "src/main.rs"],
 [("store path", "utils::get_path_for_sym, get_base"), ("output selection", "dumper::store, get_writer_for_sym, main")],
 ["file system below the store, stdout"])

prop("C13", "Symbol-server lookups follow the configuration and cache only good data",
 """With --debug-id or --code-id (the former counting if both are given, and for a PE whose PDB is not on disk) the file NAME with identifier ID is taken from the first configured cache holding NAME/ID/NAME, else from a configured 'SRV*cache*url' server offering url/NAME/ID/NAME or the same with the last character of the file name replaced by '_', and the output is what dumping that file from disk gives.
 A downloaded file is stored unchanged in that server's cache at NAME/ID/NAME (in the caches the directory NAME has its compressed extension pd_, ex_ or dl_ completed) so that the next run needs no server; an empty, 'Symbol Not Found', failed or truncated download is neither dumped nor left in a cache, and if no server offers the file the command fails (a PE whose PDB cannot be found is dumped on its own).
 An entry 'SRV*url' has no cache. Servers come from --symbol-server or, only if that option is not given, from ~/.dump_syms/config; entries are separated by semicolons or line breaks, other entries than SRV ones are ignored, SRV is case-insensitive and a leading '~' in a cache path is the home directory.""",
 ["inputs", "configurations", "histories", "fault_sequences"], "all server configurations, cache states, server answers (status codes, bodies, truncations) and sequences of runs",
 "The existing server tests need the public internet and cannot run here; none injects faults or inspects the cache.",
 ["src/cache.rs", "src/dumper.rs", "src/windows/utils.rs"],
 [("configuration parsing", "parse_srv, parse_sympath, read_config"), ("cache lookup and fill", "search_in_cache, copy_in_cache"), ("download", "check_data, fetch_data, search_file")],
 ["requests seen by a loopback server, cache directory, output, exit status"])

prop("C14", "A cabinet-compressed input dumps exactly like the file it contains",
 """If an input file is a cabinet archive, the member whose base name is the input's with its extension completed (pd_ to pdb, dl_ to dll, ex_ to exe, db_ to dbg; any other name unchanged) is dumped exactly as that member stored uncompressed under the same input name would be, whatever the compression, the number of folders and members and the position of the member.
 If there is no such member the command fails with a non-zero exit status and writes no symbol file; a file that is not a cabinet is read as it is.""",
 ["inputs"], "all cabinets: compressions, member sets, folder splits, member sizes, names with and without extension",
 "One fixed cabinet with one member is tested.",
 ["src/utils.rs", "src/windows/utils.rs"],
 [("cabinet detection and extraction", "read_cabinet"), ("member choice", "get_cabinet_files, get_corrected_path")],
 ["output compared with the uncompressed run"])

prop("C15", "A PE and its PDB are combined only when they belong together",
 """Dumping a PE uses the PDB its debug directory names if it is found at that path, beside the PE, as a '.pd_' cabinet beside the PE, or in the current directory; dumping a PDB uses the dll or exe (also dl_/ex_ cabinet) of the same base name beside it.
 In both directions a companion whose debug identifier differs is ignored, so the output never mixes two builds: functions, lines and DEBUGID come from the PDB and CODE_ID, PE name and STACK records from the PE with the same identifier, and both directions give the same symbols.
 A PE without usable PDB is dumped from the PE alone and a PDB without usable PE is dumped without CODE_ID.""",
 ["inputs", "configurations"], "all placements, names, matching and mismatching identifiers of PE and PDB",
 "Tests have matching pairs only, and one missing PE.",
 ["src/windows/utils.rs", "src/windows/pdb.rs", "src/dumper.rs"],
 [("PDB search", "get_pe_pdb_buf, try_to_find_pdb"), ("PE search with id check", "find_pe_for_pdb")],
 ["output records"])

prop("C16", "Fat Mach-O files: the requested architecture is dumped; --list-arch lists all",
 """For a universal Mach-O file with several architectures, --arch A (by default the host's) dumps exactly what the thin file of that architecture dumps, and if there is none the command fails without output; a thin file or a universal file with one architecture is dumped whatever --arch says.
 An unknown architecture name is an error. --list-arch prints for every input file the architectures of all its objects in file order and dumps nothing.""",
 ["inputs", "configurations"], "all sets and orders of architectures, alignments and --arch values",
 "There is no Mach-O file in the test data at all.",
 ["src/mac.rs", "src/dumper.rs", "src/action.rs"],
 [("object selection", "ObjectInfo::from_macho"), ("listing", "print_macho_architectures")],
 ["output compared with thin runs, stdout"])

prop("C17", "Damaged input never crashes by signal or hangs, nor yields a silent bad dump",
 """For arbitrary bytes as input (random, truncated, bit-flipped or spliced ELF, Mach-O, PE, PDB, cabinet, with any options) the command terminates normally, without signal, endless loop or memory exhaustion.
 Exit status 0 means a complete, well-formed symbol file was written; a non-zero exit status comes with a message about the input on standard error (not an internal panic of dump_syms such as a failed unwrap, index or arithmetic check) and, for an input that is refused, no symbol file.
 Debug information damaged in the entries of one compilation unit (PDB: one module) does not prevent valid functions of the other units from being dumped, unless the parsing library itself gives up.""",
 ["inputs"], "arbitrary byte strings, mutations of valid files of every supported format",
 "No test feeds malformed input.",
 ["src/dumper.rs", "src/object_info.rs", "src/collector.rs", "src/symbol.rs", "src/utils.rs", "src/mac.rs"],
 [("format detection", "get_object_info"), ("error propagation", "main, from_object")],
 ["exit status, stderr, output file"])

prop("C18", "Function names are demangled and cleaned the same way everywhere",
 """In FUNC, PUBLIC and INLINE_ORIGIN records C++ (Itanium and MSVC) and Rust names are printed demangled with parameter types and without return type, C names unchanged, after removing a trailing run of compiler clone suffixes (.cold, .constprop, .isra, .part, .llvm, .lto_priv, .localalias, .str with optional number; '[clone ...]') and writing `anonymous namespace' as (anonymous namespace).
 For Windows symbols the C decorations are removed (leading underscore; _name@N, @name@N, name@@N, whose N becomes the hexadecimal parameter size of the record), also for a FUNC without parameter list whose public symbol has one.
 A name that cannot be demangled, or a symbol name of no recognisable language, is printed as it is.""",
 ["inputs"], "all names built from the mangling grammars, suffix combinations, decorations, languages and record kinds",
 "Three unit tests with a handful of names.",
 ["src/common.rs", "src/collector.rs", "src/inline_origins.rs", "src/symbol.rs"],
 [("suffix removal", "fix_symbol_name"), ("demangling", "Collector::demangle, demangle_str, InlineOrigins::demangle"), ("Windows decorations", "ParsedWinFuncName::parse_unknown, parse_c_decorated")],
 ["names and parameter sizes of records"])

prop("C19", "Compressed mini debug information contributes its symbols",
 """For an ELF file with a .gnu_debugdata section, the function symbols of the embedded xz-compressed ELF are added as PUBLIC records under the same rules as (and after) the file's own symbols; everything else equals the dump of the same file without that section.
 A .gnu_debugdata section that cannot be decompressed or parsed contributes nothing and does not make the dump fail.""",
 ["inputs"], "all embedded symbol tables, overlaps with the outer symbols and functions, xz encodings, damaged sections",
 "One fixed binary.",
 ["src/symbol.rs", "src/object_info.rs", "src/collector.rs"],
 [("extraction", "get_compressed_minidebuginfo"), ("second pass over symbols", "ObjectInfo::from_object")],
 ["PUBLIC records compared with the model and with the file without the section"])

prop("C20", "A PE without debug information still yields placeholder and export symbols",
 """An x86_64 PE dumped on its own gets a FUNC named '<unknown in FILE>' (FILE being its file name) with the right extent for every exception-table function whose start lies in no function already dumped, a PUBLIC for every named export of an address in the image outside those (forwarded exports may also be listed), and an export at the start of a placeholder gives that function its name.
 Entries with an end before their start are ignored. DWARF functions of the PE take precedence over placeholders.""",
 ["inputs"], "all exception tables and export tables: overlapping, duplicate, inverted entries, exports at, inside and outside of functions, with and without DWARF",
 "Three fixed DLLs.",
 ["src/collector.rs", "src/windows/pdb.rs", "src/object_info.rs", "src/symbol.rs"],
 [("placeholders", "Collector::collect_placeholder_functions"), ("exports", "Collector::collect_publics")],
 ["FUNC and PUBLIC records"])

prop("C21", "Repeated runs over the same input produce byte-identical symbol files",
 """Two runs with the same input files (one module), options and environment write byte-identical symbol files, whatever -j, the time, the output mode and the verbosity level and, as long as the source paths in the debug information are absolute, the directory the command is started in.
 The input files are never modified.""",
 ["inputs", "schedules", "configurations"], "all inputs with many files, functions and inline origins; one file or several files of one module; all -j and --verbose values",
 "No test runs twice; hash-map iteration order changes from process to process.",
 ["src/source.rs", "src/object_info.rs", "src/dumper.rs", "src/inline_origins.rs"],
 [("ordered containers in the output path", "Symbols (BTreeMap), SourceFiles ids by first use"), ("merge order", "SourceMap::merge, several_files")],
 ["bytes of repeated outputs"])

prop("C22", "A dSYM bundle directory dumps like the DWARF file inside it",
 """Given a directory holding Contents/Resources/DWARF with exactly one file, the command dumps that file as if it had been given directly, under the name the module carries or else the bundle's own base name.
 A directory that is not such a bundle, or a bundle with no or several DWARF files, is refused with a non-zero exit status and no symbol file.""",
 ["inputs"], "all bundle contents (file names, other bundle files, thin and fat members, nested directories) and directory shapes",
 "There is no bundle in the test data.",
 ["src/utils.rs", "src/dumper.rs"],
 [("bundle resolution", "utils::get_mac_bundle, read_file")],
 ["output compared with the direct run, exit status"])

prop("C23", "INFO lines: extra info and generator appear exactly as requested",
 """Each --extra-info 'KEYWORD text' value is written as 'INFO KEYWORD text' after the CODE_ID line, in the order given, followed by 'INFO GENERATOR mozilla/dump_syms VERSION' unless --no-generator is given; no other option changes these lines and they change nothing else in the file.
 A value that is not an upper-case keyword (letters A-Z and underscores) followed by a space and text on one line is refused with a non-zero exit status and without output.""",
 ["inputs", "configurations"], "all option values and combinations over all input formats, one or several files",
 "No test uses these options.",
 ["src/main.rs", "src/object_info.rs", "src/common.rs"],
 [("validation", "get_extra_info"), ("printing", "ObjectInfo Display")],
 ["INFO lines, exit status"])

prop("C24", "An output that cannot be written completely makes the command fail",
 """If the symbol file, the store directory or standard output cannot be opened, created or written to the last byte (missing or read-only directory, path is a directory, device full at any point, closed pipe), the exit status is non-zero; exit status zero means that every requested output holds the complete symbols.
 The same holds with several input files.""",
 ["fault_sequences", "configurations", "inputs"], "all output modes, all points of failure (before the first byte to the last block), all output sizes",
 "No test injects an output failure.",
 ["src/dumper.rs", "src/object_info.rs", "src/main.rs"],
 [("writer and dump", "get_writer_for_sym, ObjectInfo::dump, dumper::store")],
 ["exit status, contents of the outputs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
