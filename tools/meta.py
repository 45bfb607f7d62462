#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts of the properties live here)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, observe, note, technique=None, level="model_checking"):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, note=note, level=level,
                  technique=technique or "TLA+ specification of the patch machine checked with TLC; trace validation "
                                         "of recorded runs of the real tool")


D, PE, RE, MO = ("src/patch/device.rs", "src/patch/peripheral.rs", "src/patch/register.rs", "src/patch/mod.rs")
YE, IT, PC = "src/patch/yaml_ext.rs", "src/patch/iterators.rs", "src/patch/patch_cli.rs"
PATCH_NOTE = ("Every recorded run of the real tool must be a behaviour of the specification: the device after the patch "
              "(and after prefixes of it) is computed by TLC from the input device and the patch and compared element "
              "by element; the formulas of the property are checked by TLC on every step. Bounded to generated devices "
              "of at most about 6 peripherals with a handful of registers each and patches of up to about 20 rules.")
EXAMPLES = ("The tests apply a handful of fixed patches to fixed devices and look at a few attributes; the guarantee is "
            "about every device and every combination of rules.")
INP = ["inputs", "programs"]

prop("C01", "Patch sections apply in the documented order, each on the result before",
     "Whatever the order in which sections are written in a patch, the tool applies them in the fixed documented order "
     "(at device level: delete, copy, modify, clear fields, add, derive, rebase, then the peripheral rules; inside a "
     "peripheral, cluster or register likewise), and each rule works on the result of all rules before it. The outcome "
     "of a patch is therefore the composition of the outcomes of its rules.", INP,
     "every device, every patch, every order in which the sections of a mapping are written",
     EXAMPLES + " No test writes sections in an unusual order or combines more than two kinds of sections.",
     [D, PE, RE], [("sequence of the section handlers", "process / process_peripheral / process_register")],
     ["output SVD of `svdtools patch`"], PATCH_NOTE + " Formulas: Order, Frame.")
prop("C02", "A patch changes only what its rules name",
     "Every element and attribute that no rule of a patch addresses is written exactly as it was read; in particular "
     "an empty patch writes the device unchanged. Reading the same device written differently (attribute order, number "
     "notation, white space) makes no difference.", INP,
     "every device and patch: all elements and attributes not addressed by a rule",
     "Tests look at the changed attributes only; the rest of the device is compared in one fixed example.",
     [D, PE, RE, PC], [("patches modify matched elements in place", D), ("encoding of the device", PC)],
     ["output SVD of `svdtools patch`"], PATCH_NOTE + " Formulas: Frame, UnmatchedKept, ChildrenKept, CollectKeepsOthers.")
prop("C03", "Rules apply to exactly the elements whose names match the specification",
     "A name specification (plain names, `*`, `?`, `[..]`, `{a,b}`, comma separated alternatives) selects exactly the "
     "peripherals, clusters, registers and fields whose name matches it, and the rule is applied to each of them and to "
     "nothing else. Names are compared case sensitively and as a whole.", INP,
     "every specification and every set of element names",
     "Tests use a few literal names and two wildcard patterns.",
     [MO, IT], [("matchname / matchsubspec / newglob", MO), ("MatchIter, OptIter", IT)],
     ["output SVD of `svdtools patch`"], PATCH_NOTE + " The matcher is specified independently in TLA+ (module Str). "
     "Formulas: UnmatchedKept, DeleteExact.")
prop("C04", "A rule that matches nothing is an error unless marked optional",
     "A peripheral, cluster, register or field rule that must find an element and finds none makes the whole patch fail "
     "with an error and a non-zero exit status; the same rule marked with `?~` is silently skipped. A rule that finds "
     "elements behaves the same with and without the mark.", INP,
     "every rule kind, at every level, with and without the optional mark",
     "No test has a failing rule.", [D, PE, RE, MO],
     [("no-match checks after the matched loops", PE + ", " + RE), ("matchname_optional / spec prefix", MO)],
     ["exit status", "output SVD"], PATCH_NOTE + " Formula: FailKeepsNothing.")
prop("C08", "Delete rules remove exactly the matching elements",
     "Deleting peripherals, clusters, registers, interrupts, fields or enumerated values removes every element matching "
     "the given names and nothing else, and the elements left keep their contents and their order.", INP,
     "every device and set of delete rules at every level",
     "Tests delete one literally named peripheral.", [D, PE, RE],
     [("retain over the children", "delete_child / remove_peripheral / delete_interrupt")],
     ["output SVD"], PATCH_NOTE + " Formulas: DeleteExact, Frame.")
prop("C09", "Add rules insert exactly the described element and refuse duplicates",
     "Adding a peripheral, interrupt, cluster, register or field inserts exactly one element with the described "
     "attributes, at the place its address gives, and leaves all others as they were. Adding an element whose name is "
     "already taken at that place is an error.", INP,
     "every device, every description of a new element", "Tests add one peripheral and one register.",
     [D, PE, RE, MO], [("add_peripheral, add_register, add_cluster, add_field, add_interrupt", D + ", " + PE),
                       ("make_* builders", MO)], ["output SVD", "exit status"],
     PATCH_NOTE + " Formulas: AddOne, Frame.")
prop("C10", "Modify rules set device, CPU, peripheral and interrupt attributes exactly",
     "Modifying the device, its CPU, its default register properties, a peripheral, its address blocks or its "
     "interrupts sets exactly the given attributes to exactly the given values on every matching element; everything "
     "not given stays. Values of a wrong kind (a text for a number, an unknown word for an access and so on) are reported as "
     "errors.", INP,
     "every device and every set of attributes and values",
     "One test changes a few device attributes.", [D, PE, MO],
     [("modify, modify_cpu, modify_peripheral, modify_interrupt, make_address_blocks", D + ", " + PE)],
     ["output SVD"], PATCH_NOTE + " Formula: Frame.")
prop("C11", "Modify rules set register, cluster and field attributes exactly",
     "Modifying registers, clusters and fields (name, description, position, size, access, reset value, array "
     "dimensions, write constraints and so on) sets exactly the given attributes of every matching element; all other "
     "attributes, elements and their order stay.", INP, "every device and every set of attributes and values",
     EXAMPLES, [PE, RE, MO], [("modify_register, modify_cluster, modify_child", PE + ", " + RE)], ["output SVD"],
     PATCH_NOTE + " Formulas: Frame, ChildrenKept, UnmatchedKept.")
prop("C12", "Copy rules give the target the contents of the source only",
     "Copying a peripheral (from the same or another SVD file) or register gives the target all the contents of the "
     "source, for a derived peripheral also those it takes from the ones it is derived from; a peripheral that existed keeps its name, address and interrupts, and a new one gets what the rule "
     "describes. The source and all other elements stay as they were.", INP,
     "every device, source, target and other file", "One test copies one peripheral within a file.", [D, PE],
     [("copy_peripheral, copy_register, copy_cluster", D + ", " + PE)], ["output SVD"],
     PATCH_NOTE + " Formulas: CopyKeeps, Frame.")
prop("C13", "Derive, rebase and rename keep references between peripherals intact",
     "Deriving, rebasing and renaming never leave a derived element pointing at an element that does not exist: "
     "references are redirected to the new source or new name, contents move to the new base, and addresses and "
     "interrupts stay with their peripherals.", INP, "every graph of derived elements and every rule sequence",
     "One test derives a register across clusters; none rebases or renames.", [D, PE],
     [("derive_peripheral, rebase_peripheral, modify_dervied_register", D + ", " + PE)], ["output SVD"],
     PATCH_NOTE + " Formulas: RefsKept, Frame.")
prop("C14", "Rules for the contents of a derived peripheral change nothing",
     "A peripheral that is derived from another shares the contents of its source, so rules for its registers are not "
     "applied to it: neither it nor its source changes. Rules matching both a source and its derived peripherals take "
     "effect once, on the source.", INP, "every device with derived peripherals and every rule",
     "No test patches a derived peripheral.", [D, PE], [("derived peripherals are skipped", PE)], ["output SVD"],
     PATCH_NOTE + " Formulas: DerivedKept, Frame.")
prop("C15", "Strip, prefix and suffix rules change names only, and only as given",
     "Stripping removes a matching beginning or end, and prefix and suffix rules add theirs, to the names (and display "
     "names and alternates) of registers, clusters and fields in the scope of the rule. Nothing but names changes, and "
     "names without a match stay.", INP, "every device, scope and affix (with wildcards)",
     EXAMPLES, [PE, RE], [("strip, add_prefix_suffix", PE + ", " + RE)], ["output SVD"],
     PATCH_NOTE + " Formula: AffixLayout.")
prop("C16", "Merging and splitting fields keeps the bits they cover",
     "Splitting a field gives one single-bit field per bit of it, in order, and merging fields gives one field over "
     "exactly the bits of the parts; other fields stay. Arrays of fields, and fields to merge that are not adjacent, are "
     "refused instead of being damaged.", INP,
     "every register layout and every merge or split rule", EXAMPLES, [RE], [("merge_fields, split_fields", RE)],
     ["output SVD"], PATCH_NOTE + " Formulas: BitsKept, ChildrenKept.")
prop("C17", "Collecting elements into an array keeps every element at its place",
     "An array rule replaces registers or fields that form a regular sequence by one array which expands to elements "
     "at the same addresses or bits with the same indices; elements that do not form a regular sequence or are not "
     "alike are refused, and elements not matched stay.", INP, "every set of matching elements and their layouts",
     EXAMPLES, [PE, RE, MO], [("collect_in_array", PE + ", " + RE), ("check_offsets, spec_ind", MO)],
     ["output SVD", "exit status"], PATCH_NOTE + " Formulas: NothingMoves, CollectKeepsOthers, BitsKept.")
prop("C18", "Collecting registers into clusters keeps every register at its address",
     "A cluster rule moves the matching registers into a cluster or an array of clusters such that the expanded device "
     "has every register at the address it had; groups that are not laid out alike are refused.", INP,
     "every set of matching registers and their layouts", EXAMPLES, [PE],
     [("collect_in_cluster", PE)], ["output SVD", "exit status"], PATCH_NOTE + " Formula: NothingMoves.")
prop("C19", "Expanding arrays and clusters keeps every register at its address",
     "Expanding register arrays and clusters in place gives one element per index, with the index in its name, at the "
     "address it had inside of the array, with the properties it took from the array; everything else stays.", INP, "every array or cluster and every expand rule",
     EXAMPLES, [PE], [("expand_array, expand_cluster", PE)], ["output SVD"],
     PATCH_NOTE + " Formulas: NothingMoves, CollectKeepsOthers.")
prop("C20", "Field rules attach exactly the given enumerated values",
     "A rule with named values gives every matching field exactly those names, numbers and descriptions, with the "
     "usage (read, write or both) the rule has; repeated numbers, names that begin with a digit and clashes with "
     "values already there are errors. Values shared through derivation refer to values that exist.", INP,
     "every register layout, field rule and derivation mode", EXAMPLES, [RE, MO],
     [("process_field, process_field_enum, set_enum", RE), ("make_ev_array", MO)], ["output SVD", "exit status"],
     PATCH_NOTE + " Formula: ChildrenKept.")

INC_NOTE = ("The include machine of the specification (one frame per mapping being completed) is run by TLC on recorded "
            "trees of files; the patch and the dependency list it arrives at must equal what the tool wrote, and a "
            "specified error must be an error. All pairs of values of a small set are merged exhaustively; trees of up "
            "to seven files in four directories with links, repeated and circular includes are generated.")
INC_TECH = "TLA+ specification of include resolution checked with TLC; trace validation of recorded runs of the real tool"
prop("C06", "Include files combine with the including file, which has priority",
     "A patch spread over included files means the same as the single patch with all their rules: the including file "
     "wins for single values, lists are joined, mappings are combined key by key, files are found relative to the file "
     "that names them, every file is included once per including mapping, and missing or circular includes are errors. "
     "`expand-patch` writes (or prints) exactly this combined patch and nothing else, which can stand in for the files it was "
     "made from, and `patch` applies it.", ["inputs", "programs", "histories"],
     "every tree of files, links and include lists, at the root and in peripheral rules",
     "One example includes one file; merging of different kinds of values, nesting, repetition and cycles are not tested.",
     [PC, D, YE], [("load_yaml, load_includes", PC), ("update_dict", MO)],
     ["output of `svdtools expand-patch`", "output SVD of `svdtools patch`"],
     INC_NOTE + " Formulas: NothingLost, AllTaken.", INC_TECH)
prop("C07", "The dependency list names exactly the files a patch is made of",
     "`makedeps` writes exactly the files that are read to make up the patch, each once for every including mapping that "
     "reads it, including empty files and files included by included files or peripheral rules; it fails whenever the "
     "patch cannot be put together.", ["inputs", "programs"],
     "every tree of files, links and include lists", "One test lists the dependencies of one fixed tree.",
     [PC, "src/makedeps/makedeps_cli.rs"], [("load_includes", PC), ("makedeps", "src/makedeps/makedeps_cli.rs")],
     ["dependency file written by `svdtools makedeps`"], INC_NOTE + " Formulas: AllDeps, DepsGrow, Terminates.", INC_TECH)

prop("C39", "Rules that are ignored when files are merged are reported",
     "When an included file has a rule that the including file has too, nothing is dropped silently: a rule that says the same "
     "again, and one that conflicts with the rule already there, are reported on standard error, one line each, with the key "
     "and the texts, in the order in which they are met and at whatever depth; `expand-patch` and `makedeps` report the same, "
     "and nothing is reported ignored that was taken over.", ["inputs", "programs"],
     "every tree of files, links and include lists", "No test looks at what is reported when files are merged.",
     [PC, MO], [("update_dict", MO), ("load_includes", PC)],
     ["standard error of `svdtools expand-patch` and `svdtools makedeps`"],
     INC_NOTE + " The machine keeps the list of what was told. Formulas: ToldGrow, AllTold.", INC_TECH)

prop("C21", "Write constraints, read and write actions, and clearing apply as given",
     "A rule giving a range sets exactly this write constraint on every matching field; "
     "`_read`/`_write` rules with an action set the read action or the modified write values; clearing "
     "fields removes their enumerated values and write constraints and nothing else.", INP,
     "every register layout and rule", EXAMPLES, [RE, PE, D],
     [("process_field_range, process_field", RE), ("clear_fields", D + ", " + PE)], ["output SVD", "exit status"],
     PATCH_NOTE + " Formulas: ClearOnly, ChildrenKept.")
prop("C22", "Numbers and texts in patches mean what they say in every notation",
     "A number in a patch - decimal, hexadecimal (0x), binary (0b or #, with x for bits that do not matter), signed, with "
     "underscores as separators, plain or in quotes - sets exactly the value it spells; a value that is no number, or does "
     "not fit, is refused and never changed into another. The same holds for truth values and for texts, which are kept as "
     "they are, however they are quoted.", INP, "every text at the place of every kind of scalar",
     "Tests use a few numbers.", [YE],
     [("YamlExt::parse_i64/parse_bool/parse_str, AdaptInt", YE)], ["attributes of the output SVD"],
     "TLC enumerates all texts of up to 3 (thorough: 4) of 14 letters and several hundred words around them, reads each by the "
     "specification as plain and as quoted scalar and checks laws on the readings; the tool is then given each as 32 bit "
     "number, 64 bit number, truth value and text, and the value it writes is compared. Invariants: QuotesAlike, "
     "DecimalsExact, UnderscoresIgnored, BoolsAlike, Signed.",
     "TLA+ specification of scalar readings, texts enumerated by TLC and replayed into the real tool")
prop("C23", "Shared enumerated values mean the same in every mode of `--enum-derive`",
     "Values that a rule gives to several fields reach each of them, for the same kind of access, whether they are copied, "
     "derived from the values of the first field, or the fields are derived from the first one: the three outputs become "
     "the same device, as far as names, bits and values of fields go, once references are resolved, and every reference "
     "can be resolved.", INP, "every register layout and set of rules for fields without values",
     "No test uses another mode than the default one.", [RE, MO],
     [("process_field_enum, set_enum, make_usage", RE), ("EnumAutoDerive", MO)],
     ["output SVDs of the three modes", "their expansions by `svdtools convert --expand`"],
     "The same patch is applied in all modes, and each output expanded, by the real tool; TLC validates each output against "
     "the specification and compares the expansions. Invariants: ModesAlike (of the specification itself), LinksAsAsked. "
     "Not claimed for fields that had values before, or that rules with different fields share: there modes differ by design.",
     "TLA+ specification of the patch machine and of expansion checked with TLC; trace validation of the outputs of all modes")
prop("C32", "The same command gives the same bytes, whenever and wherever it runs",
     "What a command prints and writes depends only on its arguments and on the contents of the files they name: not on the "
     "directory, the environment, other files, times, the number of threads, or commands run before. A command leaves all "
     "other files as they are. (`html` works on its files at the same time: the order of its messages, and when it refuses "
     "one of several files how far it got with the others, are open.)", ["configurations", "histories", "inputs"],
     "every command, set of files and place", "Tests run each command once, in one place.",
     ["src/cli.rs", "src/patch/patch_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/lib.rs"],
     [("Command::run", "src/cli.rs"), ("svd2html (parallel)", "src/html/html_cli.rs"), ("encoder configuration map", "src/lib.rs")],
     ["bytes printed", "bytes of all files in the directory"],
     "Histories of commands in three differently prepared places (other directory, order, environment, thread count, file "
     "times, unrelated files, old outputs, relative or absolute arguments); the machine learns what a command gives and "
     "has to see the same again. Formulas: OneAnswer, Kept.",
     "TLA+ specification of commands as functions checked with TLC; trace validation of recorded histories")
prop("C35", "Path placeholders in patched texts name the element they are in",
     "In descriptions and references given in a patch, `peripheral`, `block_path`, `register` and `register_path` in "
     "backquotes are replaced by the names of the very element the rule is applied to, for every one of the matching "
     "elements, at every depth of clusters.", INP, "every device, rule and placement of the placeholders",
     "No test uses a placeholder below a cluster or with a rule matching several elements.",
     [PE, RE, MO], [("interpolation with BlockPath and RegisterPath", MO)], ["output SVD"],
     PATCH_NOTE + " Formula: Frame.")
SHOW_NOTE = ("The machine of the specification walks the device element by element and lists what is to be shown; TLC "
             "compares it with what the tool printed for generated devices (arrays and derivation at every level, "
             "far addresses, odd white space). ")
prop("C24", "The interrupt listing is complete, ordered, and its gaps are exact",
     "`interrupts` prints every interrupt of every peripheral exactly once with its name, description and peripheral, "
     "ordered by number and by file order among equal numbers; the gaps are exactly the numbers below the greatest "
     "one that no interrupt has; `--no-gaps` leaves them out.", ["inputs"],
     "every device with any interrupts", "Two tests with two or three interrupts.",
     ["src/interrupts/interrupt_list.rs", "src/interrupts/interrupts_cli.rs", "src/interrupts/svd_reader.rs"],
     [("get_ordered_interrupts, gaps", "src/interrupts/interrupt_list.rs")], ["standard output"],
     SHOW_NOTE + "Invariants: GapsExact, Once, AllListed.",
     "TLA+ specification of the listing checked with TLC; trace validation of recorded runs of the real tool")
prop("C25", "The memory map lists every element once at its absolute address",
     "`mmap` prints one line for every peripheral, interrupt, cluster, register and field instance (arrays expanded, "
     "derived peripherals with the registers of their source) with its absolute address or bit range, name, origin, "
     "access and description, all lines sorted, so that two maps can be compared line by line.", ["inputs"],
     "every device", "One test with two peripherals without arrays, clusters or derivation.",
     ["src/mmap/mmap_cli.rs", "src/common/str_utils.rs", "src/common/svd_utils.rs"],
     [("get_registers, get_fields, get_periph_registers", "src/mmap/mmap_cli.rs")], ["standard output"],
     SHOW_NOTE + "Invariant: Complete (counted independently); formula: Grows.",
     "TLA+ specification of the memory map checked with TLC; trace validation of recorded runs of the real tool")

FILES_NOTE = ("Histories of commands over a directory of files (SVD, JSON, YAML, patches, configurations, unreadable files, "
              "missing directories, full disks) are run on the real tool; TLC computes from the specification which command "
              "must fail, which file each one writes, and what that file holds, and compares it with every file found "
              "afterwards. Bounded to histories of up to six commands over generated files. ")
FILES_TECH = ("TLA+ specification of the commands over files checked with TLC; trace validation of recorded histories of the "
              "real tool")
ALLC = ["src/cli.rs", "src/convert/convert_cli.rs", "src/patch/patch_cli.rs"]
prop("C05", "A command that fails changes no file; one that works writes only its output",
     "A command that ends with a non-zero status (unreadable input, unknown format, rule that cannot be applied, invalid "
     "result, unwritable output) leaves every existing file exactly as it was, also the file it was to write. A command "
     "that ends with status 0 has written its complete result to the named output and has changed nothing else; when the "
     "output cannot be written in full the status is not 0.", ["inputs", "histories", "fault_sequences"],
     "every command, every state of the files, every way to fail",
     "The tests call library functions and never look at files after a failure.", ALLC + ["src/makedeps/makedeps_cli.rs"],
     [("output is made in memory and written at the end", "src/convert/convert_cli.rs, " + PC)],
     ["contents of all files before and after each command", "exit status"],
     FILES_NOTE + "Formulas: FailureChangesNothing, OnlyOutput, NothingRemoved.", FILES_TECH)
prop("C26", "Converting between SVD, JSON and YAML keeps the device",
     "`convert` between any two of SVD, JSON and YAML (chosen by option or else by the file's extension, in any case "
     "variant that is documented) writes the same device: every peripheral, register, field, value, array, attribute and "
     "their order. Converting back gives the device that was there first. Files that do not hold what their format says "
     "are refused.", ["inputs", "histories"], "every device, every chain of conversions, every choice of formats",
     "No test converts a file.", ["src/convert/convert_cli.rs", "src/cli.rs"],
     [("get_input_format, get_output_format, parse_device, process_svd", "src/convert/convert_cli.rs")],
     ["files written by `svdtools convert`"], FILES_NOTE + "Formulas: RoundTrip, OnlyOutput.", FILES_TECH)
prop("C27", "Expanding a device keeps every register, field and property",
     "`convert --expand` writes a device without arrays, clusters, or derivation that has exactly the peripherals, "
     "registers, fields and values the input describes, at the same places and with the attributes they inherit; "
     "`--expand-properties` writes out size, access, protection and reset values at every register as inherited; "
     "`--ignore-enums` leaves out the enumerated values and nothing else. References to something that is not there are "
     "errors.", INP, "every device with arrays, clusters and derivation at all levels",
     "No test expands a device.", ["src/convert/convert_cli.rs", "src/common/svd_utils.rs"],
     [("order of expansions and reading options", "src/convert/convert_cli.rs")], ["files written by `svdtools convert`"],
     "The machine of the specification expands the device peripheral by peripheral; TLC compares each with what the tool "
     "wrote for generated devices with arrays, clusters and references at all levels (qualified and relative, broken "
     "ones). Formulas: PlacesKept (counted independently), Plain, PropsReach, NoValues.",
     "TLA+ specification of expansion checked with TLC; trace validation of recorded conversions of the real tool")
prop("C31", "A format configuration changes how a device is written, not what it is",
     "With a format configuration, `convert` and `patch` write every number, bit range and name in the form the "
     "configuration asks for and in the order it asks for; options that are not given change nothing. Numbers read back "
     "as the same numbers, and no element is lost or repeated by sorting.", ["inputs", "configurations"],
     "every device and every combination of options", "No test writes with a configuration.",
     ["src/convert/convert_cli.rs", PC], [("get_encoder_config", "src/convert/convert_cli.rs")],
     ["text of the SVD file written"],
     "TLC computes the exact sequence of elements and texts of the SVD document for the device and configuration and "
     "compares it with the document the tool wrote, part by part. Formula: Forward; invariants: NumbersRead (every number "
     "in every notation reads back), NothingLost.",
     "TLA+ specification of the written document checked with TLC; trace validation of documents of the real tool")
prop("C33", "`info` tells the facts of the device it reads and changes nothing",
     "`info FILE device-name` prints exactly the name the device in the file has, whatever the format of the file "
     "(chosen by option or extension); it fails for unreadable files and unknown questions and never changes a file.",
     ["inputs", "histories"], "every device, format and question", "No test calls the command.",
     ["src/info/info_cli.rs", "src/convert/convert_cli.rs"], [("parse_device", "src/info/info_cli.rs")],
     ["standard output", "files before and after"], FILES_NOTE + "Formula: ShowsKeep.", FILES_TECH)
prop("C34", "A checked patch writes only devices that are valid",
     "`patch --post-validate` writes its output exactly when the patched device is valid (names, references, values and "
     "masks that fit, usages that do not collide, no empty blocks); otherwise it fails and writes nothing. Without the "
     "option the device is written unchecked, and reading an SVD file refuses exactly what the basic checks refuse.",
     INP, "every device before and after every patch", "No test uses the option.", [PC, "src/convert/convert_cli.rs"],
     [("validate_all after processing", PC)], ["exit status", "output SVD"],
     "Validity (strict and basic) is written down in TLA+; devices with one thing wrong or nearly wrong are patched, "
     "converted and listed, and TLC decides which command has to succeed. Formula: Checked.", FILES_TECH)

HC, CC = "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs"
prop("C28", "HTML pages show every register and field, and exact coverage numbers",
     "`html` makes a page that has every peripheral, every register (of arrays and of clusters at any depth, in the order "
     "of their addresses) and every field with its bits, access, description and allowed values as the device has or "
     "inherits them. The coverage it reports at each level and in the index is exactly the share of fields whose allowed "
     "values are known (enumerated, limited, or read only).", INP,
     "every device", "No test makes a page.", [HC], [("parse_cluster, parse_register, parse_device", HC)],
     ["page and index written by `svdtools html`"],
     "The page is read back into what it says and TLC compares every peripheral with the page the specification derives "
     "from the device (arrays, clusters in clusters, references at all levels, odd texts, wide registers). Invariants: "
     "CountsAddUp, Sorted, BitsShown, AllShown.",
     "TLA+ specification of the page checked with TLC; trace validation of pages of the real tool")
prop("C29", "HTML pages are made again when, and only when, they are out of date",
     "After a successful `html` run every input whose page was missing or older than the SVD file has a complete page of "
     "the present text and a copy of the SVD beside it; other pages stay as they were, the index lists exactly the inputs, "
     "and inputs are never changed, even inside of the output directory. A run that fails or is interrupted leaves every "
     "page either as it was or complete, so that the next run repairs what is missing.",
     ["histories", "crash_points", "fault_sequences"], "every history of edits, runs, failures and interruptions",
     "No test makes a page.", [HC], [("generate_if_newer, svd2html", HC)], ["files and their times after each step"],
     "Histories of edits, changed times, removed pages, runs and runs that are cut off at any number of written bytes are "
     "recorded; TLC checks each step as a transition of the specification (which leaves open how far a broken run came). "
     "Formulas: InputsKept, Current, PagesWhole, Settled.",
     "TLA+ specification of page renewal checked with TLC; trace validation of recorded histories of the real tool")
prop("C30", "Comparison tables mark exactly which device has which element",
     "`htmlcompare` writes one table of peripherals, one of the registers of each peripheral and one of the fields of each "
     "register. A table has a row for every element (by name and place) that any of the devices has after expansion, and a "
     "column for every device, marked exactly when that device has the element there; all rows link to pages that exist.",
     INP, "every list of devices", "No test compares devices.", [CC],
     [("who_has_what_*, html_table_*", CC)], ["pages written by `svdtools htmlcompare`"],
     "TLC computes every table from the expanded devices and compares it with the page found; related devices are made by "
     "small changes, and files share names. Invariants: NobodyHasNothing, LinksLead, TwinsAlike, MarksCounted.",
     "TLA+ specification of the tables checked with TLC; trace validation of pages of the real tool")

prop("C36", "Malformed patches are refused with an error and change nothing",
     "A patch in which any entry is missing, repeated elsewhere, of the wrong kind, out of range, unknown, empty, or "
     "refers to itself either works as if the entry were not there (where the entry has no meaning) or is refused with an "
     "error message, a non-zero exit status and no output. The tool never crashes, hangs, or applies only a part of such a "
     "patch.", INP, "every patch with anything wrong at any place",
     "No test gives the tool a malformed patch.", [D, PE, RE, MO, YE],
     [("typed access to the patch", YE), ("section handlers", D + ", " + PE + ", " + RE)],
     ["exit status", "output SVD"],
     "Every entry of 23 patches that together use all rules is replaced by about 40 other values, removed or moved; entries "
     "of generated patches are replaced at random. TLC decides from the specification whether each is refused and else "
     "what it means. " + PATCH_NOTE + " Formula: FailKeepsNothing.")

prop("C37", "Patching in steps gives the same device as patching at once",
     "A device that was patched can be patched again: what any history of patches leaves is what the rules say, applied one "
     "patch after the other to what was written in between. Two patches whose rules stand in the order of the sections give, "
     "one after the other through a file, exactly the device (or the refusal) that one patch with all of these rules gives.",
     ["histories"], "every history of patches",
     "Tests apply one patch to one device and never go on from what came out.", [D, PE, RE, MO],
     [("process_device, process_peripheral", D + ", " + PE), ("writing and reading the SVD", MO)],
     ["output SVD after every patch of a history"],
     "TLC walks the whole graph of devices that histories of at most two patches (three in the thorough tier) out of a "
     "catalogue of 68 can reach from three devices, and checks 16 formulas about the rules on every edge of it; every edge "
     "is then replayed on the real tool and what it wrote compared with the device of the specification. Patches made of "
     "two of the catalogue are replayed too. Formulas: PartsAlike, WholeAlike, Atomic, Frame, NothingMoves, and others; "
     "invariant: Stable.",
     "TLA+ specification model checked with TLC over the graph of all histories; every edge replayed on the real tool")

prop("C38", "A refused patch says where it failed",
     "When a patch is refused, the message on standard error names the way to the failure, from the outside in: the device, "
     "the rule, the peripheral it matched, the rule for registers or clusters, the element that matched, and so on down to "
     "the entry that failed, each between backquotes as it is written in the patch or the device. With "
     "`--show-patch-on-error` the message also shows the patch that was applied, complete, and without the option it does not.",
     INP, "every patch that is refused, whatever fails at whatever depth",
     "No test looks at the message of a patch that is refused.", [D, PE, RE, MO, "src/cli.rs"],
     [("error contexts of the section handlers", D + ", " + PE + ", " + RE), ("show_patch_on_error", MO)],
     ["standard error of `svdtools patch`"],
     "The rules of the specification carry the trail of names with every failure. TLC applies the patch rule by rule up to the "
     "one that fails and demands that the names of the trail appear in the message in their order, and that the patch shown, "
     "when asked for, is the patch. Invariants: TrailFromTop, TrailInPatch.",
     "TLA+ specification of the rules and where they fail checked with TLC; trace validation of messages of the real tool")

# ---------------------------------------------------------------------------
NA = []


def main():
    import props
    ids = [k for k in P if k in props.PROPS]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for k in sorted(ids) + sorted(x for x, _ in NA):
            p = P[k]
            f.write(json.dumps({
                "id": k, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash setup.sh",
         "checks": [{"property": k, "quick_cmd": "bash check.sh %s quick" % k,
                     "thorough_cmd": "bash check.sh %s thorough" % k, "technique": P[k]["technique"],
                     "level": P[k]["level"], "level_note": P[k]["note"]} for k in sorted(ids)],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    main()
