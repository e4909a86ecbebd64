"""Writes properties.jsonl and MANIFEST.json."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["LnkParse3/"+f for f in files],
        "mechanism":[{"name":n,"where":"LnkParse3/"+w} for n,w in mech],
        "observe_at":observe,"hook_needed":None}})
S="The 12 tests compare the JSON of some thirty sample files with pinned reports; "
p("C01","No input makes parsing or reporting fail",
  "For every byte string which is at least as long as a shell link header (76 bytes), parsing succeeds and every report (data, JSON, text, shortcut command; default and complete) can be produced, however damaged, truncated or hostile the contents are. Anything shorter, the empty input included, is refused with the parser's own error and with nothing else.",
  ["inputs"],"all byte strings, all code pages Python can decode with, data and handles, with and without looking for appended data, all report forms",
  S+"five or so of them are malformed. One unguarded field of one structure is enough to lose the whole report, and the number of ways to truncate or damage a file is unbounded.",
  ["lnk_file.py","lnk_header.py","lnk_targets.py","lnk_info.py","info_factory.py","string_data.py","extra_data.py","extra_factory.py","target/","extra/","info/","text_processor.py","utils.py"],
  [("guards around each section","lnk_file.py process, get_json"),("per item and per block guards","lnk_targets.py as_list, extra_data.py as_dict"),("length check of the header","lnk_header.py __init__"),("decoding with replacement","text_processor.py")],
  ["exceptions out of the library's calls","output of the report calls"])
p("C02","Work, memory and output stay proportional to the size of the file",
  "The steps executed, the memory allocated and the length of every report grow at most linearly with the size of the input, for every input; sizes, counts, offsets and chains stored in the file, however contradictory, overlapping or self-repeating, never cause endless or superlinear processing. Nothing of a link stays allocated once the link and its reports are released.",
  ["inputs"],"all byte strings, in particular families which repeat or overlap one structure in growing sizes",
  S+"they are a few kilobytes at most and no test measures work: a quadratic copy or a loop which does not advance on a size of zero stays unseen.",
  ["extra_data.py","lnk_targets.py","extra/shell_item.py","extra/metadata.py","text_processor.py","lnk_file.py"],
  [("loops over items, blocks, storages and values advance by sizes of at least their headers","lnk_targets.py, extra_data.py, extra/metadata.py, extra/shell_item.py"),("only what is needed is sliced","extra_data.py process, lnk_targets.py _id_lists"),("strings end at their field","text_processor.py")],
  ["lines and jumps executed","bytes sliced out of the input","peak of traced memory, and what is left of it","length of the reports"])
p("C03","Every field of the header is reported exactly as stored",
  "Link flags, attribute flags, size, icon index, show command, hot key, class identifier and reserved fields are reported with the values in the file for every content of the 76 header bytes: exactly the names of the set flags, no others, signed and unsigned numbers as documented, undefined show commands as the normal one, hot keys as modifier and key only if both are defined. The raw flag numbers and the predicates about the link agree with these names.",
  ["inputs"],"all contents of the header","The samples contain a few dozen headers: most flags, attributes, hot keys and negative icon indexes appear in none of them.",
  ["lnk_header.py","lnk_file.py"],[("offsets and formats of the fields","lnk_header.py"),("flag, hot key and window style tables","lnk_header.py")],["header section of the report","has_*/is_* predicates"])
p("C04","Time stamps denote the instants stored in the file",
  "Every FILETIME of the header is reported as the UTC instant it denotes, exact to the microsecond, over the whole range of the calendar, and every FAT date and time of a file entry as the instant of its fields; zero means not set, a value which denotes no instant is reported as missing and never as another instant. The time zone and locale of the process have no influence.",
  ["inputs","configurations"],"all 64-bit FILETIMEs, all 32-bit FAT stamps, all time zones of the process","The samples have a few dozen stamps of the years 2000 to 2022; rounding, ranges, leap days and invalid fields are beyond them.",
  ["utils.py","decorators.py","lnk_header.py","target/shell_fs_folder.py"],[("conversion of FILETIME","utils.py parse_filetime"),("conversion of FAT date and time","utils.py parse_dostime")],["time stamps of the report"])
p("C05","The target ID list is reported item by item, completely and in order",
  "Each item of the target ID list up to its terminal item is reported once, in the order of the file, with the class its type indicator stands for and with exactly the values stored in it: identifiers, sort index, names, flags, sizes, attributes, categories, signatures and comments, nothing of its neighbours. Items of unknown type are reported as such with their size, and the size and the position of the list are those of the file.",
  ["inputs"],"all lists of items: all 256 type indicators, all contents, all lengths","The samples use a handful of item kinds and never most of the type indicators, sort indexes, categories and boundary lengths.",
  ["lnk_targets.py","target_factory.py","target/"],[("iteration over items","lnk_targets.py _id_lists"),("choice of the class","target_factory.py target_class"),("offsets of the fields","target/*.py")],["target section of the report"])
p("C06","LinkInfo is reported exactly as stored",
  "For every LinkInfo structure the report has its sizes, flags and offsets, the volume (drive type, serial number, label) of a local or the share (names, provider, flags) of a network location, base path and suffix, each text taken from the place its own offset points to, the Unicode fields exactly when the structure has them. What is not present or lies beyond the data is not reported as a value.",
  ["inputs"],"all structures: both kinds of location, header sizes with and without Unicode fields, all offsets, texts and layouts","The samples have two layouts; offsets which differ from the usual ones, Unicode fields and most drive types and providers appear in none.",
  ["lnk_info.py","info_factory.py","info/local.py","info/network.py","lnk_file.py"],[("offsets of the structure","lnk_info.py"),("choice of the view","info_factory.py"),("offsets of volume and network link","info/local.py, info/network.py")],["link_info section of the report"])
p("C07","The strings of a link are reported exactly as stored",
  "Each of the description, relative path, working directory, arguments and icon location is reported exactly if its flag is set and it is in the file, with the characters of its own counted extent up to a NUL, in UTF-16 or the code page as the flags say. The count of one string never shifts another one, except that the first three take at most 260 characters each.",
  ["inputs"],"all subsets of the strings, all counts, all contents, Unicode and code page","The samples have at most a few subsets and no lengths near the limits.",
  ["string_data.py","text_processor.py"],[("sequence of the strings","string_data.py __init__"),("count and limit","string_data.py read")],["data section of the report"])
p("C08","Every extra data block is reported completely and under its own name",
  "Each block of the extra data up to the terminal block is reported under the name its signature stands for, with exactly the values stored in it, whatever its order, neighbours and size; a block of any other signature is reported as unknown with its size and the SHA-256 digest of its contents. No block shows values of another one.",
  ["inputs"],"all sequences of blocks, all contents, all 32-bit signatures","The samples have one or two blocks each in usual order; half of the block kinds appear in one sample only, unknown signatures in one.",
  ["extra_data.py","extra_factory.py","extra/"],[("iteration over blocks","extra_data.py process"),("choice of the class","extra_factory.py extra_class"),("offsets of the fields","extra/*.py")],["extra section of the report"])
p("C09","The property store is reported storage by storage and value by value",
  "All storages of the property store and all values in them are reported in order, each with its format identifier, version, sizes, integer identifier or name, and the name of its type; 16-bit integers are reported with their sign and texts with all their characters. A value is taken from its own bytes only and never from its neighbours.",
  ["inputs"],"all sequences of storages and values, all types, names and contents","Two samples have a property store, with a few values of the usual types.",
  ["extra/metadata.py"],[("iteration over storages and values","extra/metadata.py"),("table of value types","extra/metadata.py")],["METADATA_PROPERTIES_BLOCK of the report"])
p("C10","The link flags decide which sections there are, and each is found in its place",
  "For every combination of flags a section (ID list, LinkInfo, each string) is reported exactly if its flag says that it is there, and it is read from right behind the previous section that is there; a LinkInfo to be ignored is skipped but not reported. All other flags leave the layout alone.",
  ["inputs","configurations"],"all combinations of the flags which steer the layout and of all others, all sizes of the sections","The samples cover a dozen of the 512 combinations.",
  ["lnk_file.py","string_data.py"],[("running index over the sections","lnk_file.py process"),("predicates about the flags","lnk_file.py")],["which sections the report has, and their contents"])
p("C11","The reported size is the extent of the link; appended data is told apart",
  "The size reported for a link is the number of bytes of its structures including the terminal block, and never exceeds the data, so that concatenated links can be walked by it when appended data is not to be considered. When it is, all bytes behind the terminal block are reported by size and SHA-256 digest, nothing when there are none; handles are read from their position.",
  ["inputs","histories"],"all links, chains of links, appended bytes, both modes, damaged links","One test walks one file of concatenated links; one has appended data.",
  ["lnk_file.py","extra_data.py","extra/terminal.py"],[("sum of the sizes of the sections","lnk_file.py process"),("terminal block and the rest","extra_data.py process, extra/terminal.py")],["size","TERMINAL_BLOCK of the report"])
p("C12","Damage stays within the damaged component",
  "When the contents of items, LinkInfo, strings or blocks are damaged but their sizes are kept, every other component is reported as if nothing had happened; when a file is cut, everything which is wholly there is reported as stored, and nothing which is missing is made up from other bytes.",
  ["inputs","fault_sequences"],"all well framed links, all damage to the contents of one or several components, all points of truncation","A handful of malformed samples fix what is reported for just these files.",
  ["lnk_file.py","lnk_targets.py","extra_data.py","extra/shell_item.py","string_data.py","info_factory.py"],[("guards per section, item, block and field","lnk_file.py, lnk_targets.py as_list, extra_data.py as_dict"),("structures are sliced to their own extent","lnk_targets.py, extra_data.py, extra/metadata.py")],["components of the report next to the damaged one"])
p("C13","Both printed forms carry exactly the report, whatever the strings contain",
  "Read back by any strict reader, the JSON and the text output give the data of the report: every value once, under its section, nothing more and nothing changed. No string of the file can add, hide or alter a line, key or section of the output, or make it unreadable.",
  ["inputs"],"all reports, all characters in all strings, default and complete, both forms","Tests compare the text of three samples and JSON only through the data; hostile characters are in none of them.",
  ["lnk_file.py"],[("YAML dump and its indentation","lnk_file.py print_lnk_file"),("JSON dump","lnk_file.py print_json")],["output of the print calls"])
p("C14","The default report is the complete one without offsets and reserved fields",
  "The default report differs from the complete report of the same file only in that the sizes, offsets and reserved fields of the structures and the modification times of the items are left out: all other values are the same and none is added. Asking for one form never changes what the other form shows, and the default form of every report is the one without an argument.",
  ["inputs","histories"],"all links, both orders of asking","Tests compare one form of each sample with its pinned report, not the two forms with one another.",
  ["lnk_file.py"],[("removal of fields","lnk_file.py get_json")],["get_json() with and without everything"])
p("C15","The same bytes give the same report, whatever else happens",
  "A report depends on the bytes, the code page and the mode only: repeating it, asking for other reports in between, altering a returned report, parsing other links before or at the same time in other threads, another process, hash seed, time zone or working directory make no difference. The input is left unchanged.",
  ["histories","schedules","configurations"],"all orders of calls on one or many links, all interleavings of threads, all environments of the process","Tests make one report of one object in one thread.",
  ["lnk_file.py","extra/","target/","string_data.py","text_processor.py"],[("no shared mutable state; reports are built anew","all modules")],["reports of repeated, interleaved and concurrent calls"])
p("C16","Texts are decoded alike wherever they are",
  "A text of the code page ends at its first NUL or its field and is decoded with the chosen code page (cp1252 unless told otherwise), as UTF-8 if that fails, with replacement characters as the last resort; UTF-16 texts end at their first aligned NUL character and do not depend on the code page. Undefined bytes behind the end of a text never show.",
  ["inputs","configurations"],"all places which hold a text, all bytes, all code pages","The tests use the default and one other code page on two samples.",
  ["text_processor.py","target/","info/","extra/"],[("reading strings","text_processor.py"),("the code page is handed on to every structure","lnk_file.py, target_factory.py, extra_data.py")],["texts of the report"])
p("C17","Irregularities are told by warnings, regular links cause none",
  "A link which follows the documentation is parsed and reported without a single warning; each irregularity which the report can not show faithfully (wrong class identifier, reserved fields and constants, times, characters or identifiers which are not valid, unknown kinds, structures which are too short or missing) causes at least one. Nothing is written to the standard streams by parsing.",
  ["inputs"],"all conforming links, all single deviations of the listed kinds in all places","Only three tests look at warnings at all.",
  ["decorators.py","utils.py","text_processor.py","lnk_targets.py","extra_data.py","lnk_file.py","string_data.py","target_factory.py"],[("warnings.warn at each deviation","decorators.py must_be, utils.py, text_processor.py, lnk_targets.py, extra_data.py, lnk_file.py")],["warnings raised during parsing and reporting","standard streams"])
p("C18","Parsing and reporting are passive",
  "Whatever paths, commands, names, URLs or markup a link contains, parsing and reporting it opens no file, starts no process, resolves no name, contacts no host, executes or imports nothing and leaves the state of the process (directory, environment, signals, descriptors, threads, modules, filters) as it was. The command line tool opens the file it was given, for reading, and nothing else; a handle passed in is read and never closed or written.",
  ["inputs"],"all links, hostile texts in all places, all report forms, the command line tool","No test observes side effects.",
  ["lnk_file.py","all modules"],[("only decoding of bytes in memory","all modules"),("open() for reading","lnk_file.py main")],["audit events of the interpreter","snapshots of the process"])
p("C19","The shortcut command is the relative path followed by the arguments",
  "Split by the Windows rules for command lines, the reported command starts with exactly the relative path as one argument, whatever blanks, quotes and backslashes it contains, followed by a blank and the arguments verbatim; what the link does not have is left out, without a stray blank. The plain and the JSON form show that same command.",
  ["inputs"],"all paths and arguments, all combinations, damaged links","One test checks the command of one sample.",
  ["lnk_file.py"],[("quoting and joining","lnk_file.py lnk_command"),("both forms","lnk_file.py print_shortcut_target")],["command and its printed forms"])
p("C20","The command line tool shows what the library reports",
  "For every file and every combination and spelling of the options the tool prints exactly the library's report of that form for the same bytes and code page, and exits with success, whatever the encoding of the standard output: characters which it does not have are escaped, so that the JSON and text forms still read as the same report, and the plain command is refused rather than changed. When the file can not be read or is no link it exits with failure and prints no report.",
  ["inputs","configurations"],"all files, all combinations and spellings of the options, places of the file name, encodings of the output","Tests call the library only, never the tool.",
  ["lnk_file.py"],[("argument parser and dispatch","lnk_file.py main")],["standard output and exit code of the tool"])
p("C21","Identifiers keep every bit",
  "Every GUID of a link is reported in the registry form of its 16 bytes (first three groups little endian, upper case), wherever it is; packed installer identifiers are unpacked to the GUIDs they stand for, and the feature name between them is reported in full. A malformed packed identifier is reported as missing, with a warning, and never as another GUID.",
  ["inputs"],"all GUIDs in all places which hold one, all packed identifiers, feature names and malformations","The samples contain a few dozen GUIDs and one packed descriptor.",
  ["utils.py","decorators.py","extra/darwin.py"],[("GUID","utils.py parse_uuid"),("packed GUID","utils.py parse_packed_uuid, _quad_to_hex"),("parts of the descriptor","extra/darwin.py")],["identifiers of the report"])
p("C22","An ID list says the same in an extra data block as in the target",
  "The same ID list bytes give the same list of items, entry for entry and with the same irregularities told, when they are stored as the target of a link and when they are stored in a shell item identifier block, well formed or not, in every code page.",
  ["inputs"],"all ID lists, damaged and random ones included, all code pages","One sample has such a block; no test compares the two readers.",
  ["lnk_targets.py","extra/shell_item.py","target_factory.py"],[("two loops over the same item classes","lnk_targets.py _id_lists, extra/shell_item.py _id_list")],["items of both lists"])
p("C23","The objects of a link answer as its report does",
  "The objects a link consists of (header, ID list and items, LinkInfo with its location, strings, extra data blocks, storages and values) answer every question about a field of a well formed link with the value the file has and the report shows: whatever the order of the questions, repeatedly, with iterators interleaved or left unfinished, and also when the link object itself is gone. Iterating gives the parts in the order of the file, predicates tell the flags, and no accessor fails.",
  ["inputs","histories"],"all well formed links, all accessors of all objects, all orders of calls and interleavings of iterators",
  "Tests read the reports only; accessors which no report uses are never called, and none is called twice or out of order.",
  ["lnk_header.py","lnk_targets.py","lnk_info.py","info/","string_data.py","extra_data.py","target/","extra/","lnk_file.py"],
  [("accessors read the bytes the object was given","lnk_header.py, target/*.py, extra/*.py, info/*.py"),("iteration","lnk_targets.py __iter__, extra_data.py __iter__, extra/metadata.py"),("objects keep their own slice of the data","lnk_file.py process")],
  ["return values of the public methods of the objects"])
p("C24","It does not matter how the bytes are handed over",
  "The report depends on the bytes of the link only and not on how they are handed over: as bytes or a bytearray, or through any readable binary handle (files, buffered or not, pipes, sockets, archive members, memory maps, objects which can only read()), by position or by keyword. A handle is read from its position to its end, is neither closed nor moved otherwise, and the data are not altered; too short data are refused alike. The tool reads files, links to them and pipes alike.",
  ["inputs","configurations"],"all links, all kinds of carriers and positions, all ways to pass the arguments",
  "Tests open regular files at position 0 and pass them one way.",
  ["lnk_file.py","lnk_header.py"],[("choice between handle and data","lnk_file.py __init__"),("opening the file of the tool","lnk_file.py main")],
  ["reports of the same bytes in different carriers","state of the handle afterwards","output of the tool"])
p("C25","Of any bytes the report shows what they say and nothing else",
  "For every input, damaged, cut and hostile ones included, each section, item, string, block, storage and value which the bytes hold according to the flags, sizes, counts and offsets in them is in the report, with the value of exactly these bytes, and no entry is in the report which they do not hold: nothing is taken from neighbours, from behind the end of a structure or made up, and what can not be read is left out or told apart rather than guessed. The size reported is where the structures end.",
  ["inputs","fault_sequences"],"all byte strings; what the documents leave open about damaged structures (an item without a type, a block of 4 to 7 bytes, values behind a malformed one) is excepted",
  "Five malformed samples pin what is reported of just these files; damage to sizes, counts and offsets moves every later structure, and the combinations are unbounded.",
  ["lnk_file.py","lnk_targets.py","target_factory.py","target/","lnk_info.py","info_factory.py","info/","string_data.py","extra_data.py","extra_factory.py","extra/","text_processor.py"],
  [("running index over the sections","lnk_file.py process"),("bounds of items, blocks, storages and values","lnk_targets.py, extra_data.py, extra/metadata.py"),("guards leave out what can not be read","lnk_targets.py as_list, extra_data.py as_dict, lnk_file.py _read_link_info_field")],
  ["the whole report"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
notes={
"C01":("runtime totality monitor: exception and hang oracle over hostile, truncated, field-corner and coverage-guided inputs","no stage raised or hung on any input explored; trusts the generators' reach (lines of the package reached are in the evidence)"),
"C02":("runtime resource monitors: executed lines and jumps (sys.monitoring), counted slices, traced memory, output length over growing input families","growth and budget oracle; linear behaviour observed on the families and sizes explored only"),
"C03":("reference-model oracle on monitored executions: every flag bit, boundary values, random headers","exact comparison with an independent encoder written from the specification"),
"C04":("reference-model oracle on monitored executions: boundary and exhaustive FAT stamps, FILETIME boundaries, time zones","exact instants to 1 us; the calendar of Python's datetime is trusted"),
"C05":("reference-model oracle on monitored executions: all type indicators, item kinds and boundary contents","exact comparison with an independent encoder; trusts libfwsi's documentation of the items"),
"C06":("reference-model oracle on monitored executions: layouts, offsets and truncations of LinkInfo","exact comparison with an independent encoder; finding provider-table is modelled by value"),
"C07":("reference-model oracle on monitored executions: subsets, counts and contents of strings","exact comparison with an independent encoder"),
"C08":("reference-model oracle on monitored executions: kinds, pairs and sequences of blocks","exact comparison with an independent encoder; finding duplicate-block is keyed by repeated known signatures"),
"C09":("reference-model oracle on monitored executions: storages and values of every type","exact comparison with an independent encoder"),
"C10":("reference-model oracle on monitored executions: all 512 layouts","exact comparison of the whole report, every layout executed"),
"C11":("offline walker over concatenated links, digest oracle on appended data","exact sizes and digests on the links and chains explored"),
"C12":("fault injection with a component-isolation monitor: damaged contents and truncation at byte granularity","components next to the damage compared with an independent encoder"),
"C13":("round-trip oracle: strict readers of the printed YAML and JSON forms","equality of what is read back with the report; PyYAML's loader with strict construction is trusted"),
"C14":("differential monitor of the two report forms","leaf by leaf comparison on the links explored"),
"C15":("history, process and thread-schedule stress with a determinism oracle","reports compared with a model or a fresh process; interleavings are sampled by forced switches"),
"C16":("decoding oracle on monitored executions: every place that holds a text x code pages x bytes","independent decoding compared exactly; Python's codecs are trusted"),
"C17":("warning monitor over conforming links and a catalogue of single deviations","presence, absence and least number of warnings, not their wording"),
"C18":("interpreter audit-hook monitor with positive controls, process-state snapshots","events the interpreter audits, and the state listed in the check"),
"C19":("command-line re-parsing oracle (Microsoft C run-time rules) on monitored executions","exhaustive over short paths of the significant characters, random beyond"),
"C20":("differential monitor of the tool (in process and as a process) against the library","byte for byte stdout, exit codes"),
"C21":("identifier oracle (uuid module, own packing) on monitored executions of every place and digit","exact comparison"),
"C23":("history monitor of the objects' accessors against the reference model and the report","all accessors found by reflection called in random orders; values compared with the model"),
"C24":("differential monitor over carriers of the same bytes, with recorded handle state","bytes and two dozen kinds of handles; the tool as a process"),
"C25":("independent reference reader as an oracle on hostile, damaged and feedback-guided inputs","exact comparison of the whole report wherever the documents settle it; open places are counted in the evidence"),
"C22":("differential monitor of the two readers of ID lists","entry by entry equality, with the reference model for well formed lists"),
}
M={"version":1,"setup_cmd":"./setup.sh","checks":[{"property":x["id"],"quick_cmd":f"./run.sh {x['id']} --tier quick","thorough_cmd":f"./run.sh {x['id']} --tier thorough","technique":notes[x["id"]][0],"level":"exploration","level_note":notes[x["id"]][1]} for x in P],"not_applicable":[],
"notes":"No hooks in /repo: the monitors use sys.monitoring, audit hooks, warnings and the public interface. The checks import /repo's working tree without byte code caches."}
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
