"""The properties: one entry each (properties.jsonl and MANIFEST.json are generated from here)"""

P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, note=note))


VAL = "punx/validate.py"
H5 = "punx/validations"

prop(
    "V01", "Every object of a data file is cataloged once, under its NeXus class path",
    "Validation catalogs every group, dataset and attribute of an HDF5 file, including what is reached through working soft, hard and external links (each under every address of this file), exactly once at its address, and nothing else; a group that contains itself is not entered again. The NeXus class path cataloged for an object is the chain of the NX_class attributes (as text) of the groups above it, ended by the name of the dataset and/or '@' and the name of the attribute; everything at or below a group without an NX class is non-NeXus content. Looking up a class path gives exactly the objects that have it.",
    ["inputs"], "all HDF5 files: names, class texts, nesting, attributes, links of every kind including dangling and circular ones",
    "Tests validate a few dozen sample files and compare counts; names, class texts and link structures are unlimited and links to odd places hardly occur in the samples.",
    [VAL], [("walk over the file", "punx/validate.py build_address_catalog, _group_address_catalog_"), ("class path of an item", "punx/validate.py ValidationItem.determine_NeXus_classpath")],
    [("addresses", "address -> item", "Data_File_Validator.addresses"), ("classpaths", "class path -> items", "Data_File_Validator.classpaths")],
    ["Data_File_Validator.validate(), .addresses, .classpaths"],
)
prop(
    "V02", "Names of items, attributes and classes are judged by the NeXus naming rules",
    "A group, dataset or link name that consists of lower case letters, digits and underscores and does not begin with a digit is OK; one that only matches the relaxed rule (a letter or underscore followed by letters, digits and underscores) is a NOTE; any other is an ERROR (in an NXcollection: WARN). An attribute name or a class text is judged by the same kind of rule over its entire text. Every item of a NeXus part of the file receives exactly one such judgement, except attributes seen through a link.",
    ["inputs"], "all names and class texts up to the stated length, over the stated alphabet, of every kind of item in every kind of parent",
    "Tests check about fifteen hand-picked names; a pattern that accepts a wrong character, a trailing line end or an unanchored part passes them.",
    [VAL, "punx/validations/item_name.py", "punx/nxdl_schema.py"],
    [("naming patterns of the schema", "punx/nxdl_schema.py Schema_Element/Schema_pattern"), ("choice of the pattern", "punx/validations/item_name.py")],
    observe=["findings 'validItemName', 'validNXClassName', ..."],
)
prop(
    "V03", "The class a group declares is judged against the chosen file set",
    "A group whose NX_class is a base class of the chosen NXDL file set is OK; the name of a class that the file set does not have is an ERROR; an application definition (or contributed definition not usable as base class) used as a group class is never reported as OK. A group without NX_class is reported as a NOTE, except that the root may be without one or state NXroot only.",
    ["inputs", "configurations"], "all class texts within the bound, every class of every shipped file set, at every level",
    "Tests use about ten classes of one file set.",
    [VAL, "punx/validations/nx_class_attribute.py", "punx/nxdl_manager.py"],
    [("look-up in the file set", "punx/validations/nx_class_attribute.py"), ("usable as base class", "punx/validate.py usedAsBaseClass")],
    observe=["findings at the address of the group / its @NX_class"],
)
prop(
    "V04", "Validation gives a complete result for every readable HDF5 file",
    "Validating any file that HDF5 can open returns with findings, never with an exception or without end, whatever values, kinds of value, names and links the file holds; every finding has an address and one of the known statuses, there is exactly one finding about the default plot, and the report can be printed. A missing file and a file that is not HDF5 are refused with the documented exceptions.",
    ["inputs"], "all files within the stated bounds: any attribute with any kind of value at any place, any link to anywhere, any definition text",
    "Tests validate well-formed sample files; a malformed attribute or link is one of very many combinations.",
    [VAL, "punx/validations/"], [("per-item validation", "punx/validations/*.py"), ("link handling", "punx/validate.py")],
    observe=["Data_File_Validator.validate() result or exception", "print_report()"],
)
prop(
    "V05", "Findings for a file do not depend on what was validated before",
    "Validating a file gives the same findings, catalog, score and summary whatever files were validated, reported or closed before in the same process, by the same validator, by another validator of the same NXDL file set, or by one of another file set.",
    ["histories", "inputs"], "all sequences of operations up to the bound, followed by the validation of any of the described files",
    "Each test makes a fresh validator and validates one file; state left behind in validators or shared definitions shows only in sequences.",
    [VAL, "punx/nxdl_manager.py", "punx/nxdl_schema.py", "punx/validations/default_plot.py"],
    [("reset at the begin of validate()", "punx/validate.py validate"), ("shared definitions", "punx/validate.py nxdl_manager")],
    [("addresses, classpaths, validations", "results of the last validation", "Data_File_Validator")],
    ["findings, catalog, score, summary of the last validation"],
)
prop(
    "V06", "The default plot is found exactly when the file identifies one",
    "The one finding about the default plot is OK, and names the address of a plottable signal, exactly when an NXdata group directly inside an NXentry has a signal attribute that names a dataset (and no such group's signal attribute is broken), or failing that, when the datasets of one group have exactly one signal=1 attribute; if several qualify, the one selected by the chain of default attributes is named. Otherwise the file gets NOTE or ERROR as the file set's NXentry requires a data group or not, and ERROR if it has no NXentry.",
    ["inputs", "configurations"], "all pointer texts and names within the bound, all kinds of value of the pointer attributes, all combinations of two entries and data groups",
    "Tests use a handful of files with one well-formed default plot.",
    [VAL, "punx/validations/default_plot.py"], [("search by version 3, 2, 1 rules", "punx/validations/default_plot.py")],
    observe=["finding 'NeXus default plot'"],
)
prop(
    "V07", "Attributes that name other items are OK exactly when the named item exists",
    "A group's signal attribute, each name of an axes attribute, a default attribute of root, entry and subentry, and a target attribute are reported OK exactly when the item they name is in the file (followed through links; for target: an absolute address of valid names), and ERROR otherwise. A dataset's signal attribute is OK exactly when it means 1.",
    ["inputs"], "all pointer texts and item names within the bound, all kinds of value, fields, groups, working and dangling links",
    "Tests have some well-formed pointers and one or two broken ones.",
    [VAL, "punx/validations/attribute.py"], [("judgement of attribute values", "punx/validations/attribute.py")],
    observe=["findings at the address of the attribute"],
)
prop(
    "V08", "Items of a group are compared completely with the NeXus class of the group",
    "For every group with a NeXus class of the chosen file set, each field and each group the class defines is reported exactly once as present (OK) or absent (OPTIONAL) according to whether the group holds an item of this name; each item of the group is told to be defined or not defined by the class, each attribute to be known or unknown, and a value of an attribute for which the class enumerates values is OK exactly when it is one of them. Groups without NeXus class are not compared.",
    ["inputs", "configurations"], "every class of the three shipped file sets, all item and attribute names within the bound, all items and links",
    "Tests look at a few findings of a few classes.",
    [VAL, "punx/validations/base_class_items_in_hdf5_group.py", "punx/validations/hdf5_group_items_in_base_class.py", "punx/validations/attribute.py", "punx/nxdl_manager.py"],
    [("comparison with the class", "punx/validations/base_class_items_in_hdf5_group.py, hdf5_group_items_in_base_class.py"), ("attribute values", "punx/validations/attribute.py")],
    observe=["findings at the address of the group, its items and its attributes"],
)
prop(
    "V09", "An entry is judged by the application definition it declares",
    "An entry or subentry with a definition field is judged by exactly the definition its (first) text names: OK if it is an application definition of the file set, ERROR if unknown or a base class. Each field of the definition's entry is then reported once: OK if present, ERROR if absent and required, OPTIONAL if absent and declared optional; each entry is judged by its own definition only.",
    ["inputs", "configurations"], "every application definition of the three shipped file sets, each field present or absent; all definition texts within the bound",
    "Tests use two or three application definitions in complete files.",
    [VAL, "punx/validations/application_definition.py"], [("comparison with the definition", "punx/validations/application_definition.py")],
    observe=["findings 'NeXus application definition', 'NXDL field', 'known NXDL'"],
)
prop(
    "V10", "Score, summary and report tell exactly what was found",
    "The score is the mean of the documented values of the counted findings (statuses without a value do not count), the summary counts the findings of each selected status exactly, and the printed report lists exactly the findings of the selected statuses, each once with its address, status, test and comment, followed by the summary of the findings.",
    ["inputs", "histories"], "all lists of findings up to the bound, all selections of statuses",
    "Tests compare totals of sample files with recorded numbers.",
    [VAL, "punx/finding.py", "punx/validate.py"], [("score and summary", "punx/validate.py finding_score, finding_summary"), ("report", "punx/validate.py print_report"), ("status values", "punx/finding.py")],
    observe=["finding_score(), finding_summary(), print_report() output"],
)

TREE = "punx/h5tree.py"
prop(
    "T01", "The tree listing shows every object of a data file once, in its place",
    "The tree of a data file lists every group, dataset and link of the file exactly once, indented below its group, with the class of a group, and all of its attributes when these are requested and none otherwise. A link is shown with the place it points to, whether or not that exists; content reached through a group that was already shown on the way there is not shown again.",
    ["inputs"], "all files within the bounds: names, classes, nesting, attributes, soft, hard and external links, dangling and circular ones",
    "Tests compare the listing of a dozen sample files with recorded text.",
    [TREE, "punx/utils.py"], [("walk and rendering", "punx/h5tree.py Hdf5TreeView.report, _renderGroup, _renderLinkedObject"), ("class of a group", "punx/utils.py")],
    observe=["Hdf5TreeView.report()"],
)
prop(
    "T02", "The tree of every readable HDF5 file can be shown",
    "The tree listing of any file that HDF5 can open is produced, without exception and with a line for each object, whatever values, kinds of value, names and links the file holds. A missing file gives no listing and a file that is not HDF5 is refused with an error.",
    ["inputs"], "all files within the bounds: every kind of dataset and attribute value, every kind of link, any place",
    "Tests show well-formed sample files.",
    [TREE, "punx/utils.py"], [("rendering of values", "punx/h5tree.py _renderDataset, decode_byte_string"), ("links", "punx/h5tree.py")],
    observe=["Hdf5TreeView.report() result or exception"],
)
prop(
    "T03", "Values in the tree listing are shown faithfully and abbreviated as documented",
    "The listing of a dataset or attribute shows the value itself for a single value and the text itself for texts; of an array with at most the requested number of items every item, of a longer one the leading items and the last with an ellipsis between, always in order and with the true shape.",
    ["inputs", "configurations"], "all array lengths, ranks, values, texts and requested limits within the bounds",
    "Tests have recorded listings of a few arrays and one or two limits.",
    [TREE], [("abbreviation", "punx/h5tree.py _renderArray, _renderNdArray"), ("texts", "punx/h5tree.py _renderDataset")],
    observe=["Hdf5TreeView.report(), array_items_shown"],
)
prop(
    "T04", "A file is called NeXus exactly when it has an NXentry group at the top",
    "A file is recognised as a NeXus file exactly when one of its top-level groups, reached directly or through a link that leads somewhere, has the NX_class text NXentry; every other HDF5 file, whatever it holds, gets the answer no.",
    ["inputs"], "all class texts and kinds of value within the bound, items of every kind at the top and deeper",
    "Tests ask about a few sample files.",
    ["punx/utils.py"], [("recognition", "punx/utils.py isNeXusFile and its helpers")],
    observe=["utils.isNeXusFile(), isHdf5FileObject(), isNeXusGroup(), isNeXusDataset()"],
)

NM = "punx/nxdl_manager.py"
prop(
    "N01", "Every item declared in an NXDL class definition is in the model once",
    "For every valid NXDL file the class model holds each declared group, field, link and attribute exactly once, at its level, under its declared name or (only when that name is taken by another item of the same group) that name with a number; no two items of a group share a name. A group without name is known by its type without NX.",
    ["inputs", "configurations"], "all NXDL documents within the bounds: numbers, kinds, order, nesting and names of the items; every class of the shipped file sets",
    "Tests count the items of some shipped classes; clashes of names occur in few of them and in few constellations.",
    [NM], [("unique names", "punx/nxdl_manager.py ensure_unique_name"), ("reading of elements", "punx/nxdl_manager.py parse_fields, parse_groups, parse_links, parse_attributes")],
    [("groups, fields, links, attributes", "name -> model of the item", "NXDL__definition, NXDL__group, NXDL__field")],
    ["NXDL_Manager.classes"],
)
prop(
    "N02", "The class model tells what the NXDL file declares about each item",
    "The enumerated values (in order), the rank and the dims with index, value and reference, the symbols, and the link targets of the class model are exactly those the NXDL file declares for that very item, whatever comments or processing instructions stand between them.",
    ["inputs"], "all values, numbers of values, dims and symbols within the bounds, at definition, group, field and attribute",
    "Tests look at a few items of shipped classes.",
    [NM], [("enumerations", "punx/nxdl_manager.py NXDL__field, NXDL__attribute"), ("dimensions", "punx/nxdl_manager.py NXDL__dimensions, NXDL__dim"), ("symbols", "punx/nxdl_manager.py NXDL__symbols")],
    observe=["NXDL_Manager.classes"],
)
prop(
    "N03", "What must be present follows from the category and the declaration alone",
    "Fields of an application definition are required at least as often as they declare (once if they declare nothing), its groups once, its attributes must be present; items of base classes and contributed definitions may be absent. The occurrence of an item does not depend on other items or other files of the file set.",
    ["inputs", "configurations"], "file sets of two definitions of any categories with any declared minimum within the bounds",
    "Tests look at a few items of shipped classes, all of which are read in one order.",
    [NM, "punx/nxdl_schema.py"], [("defaults by category", "punx/nxdl_manager.py parse_fields, parse_groups, parse_attributes"), ("copies of the schema defaults", "punx/nxdl_manager.py parse_xml_attributes")],
    observe=["NXDL_Manager.classes ... xml_attributes"],
)
prop(
    "N04", "NXDL files are read by the schema of their own file set",
    "The NXDL files of a file set are checked by the XML Schema of that file set, and by no other, whatever file set was selected, read or used before: a file valid by it is read, an invalid one is refused with an error. The description of a schema (content of definition, group, field; patterns; types) is complete and is the same each time it is read.",
    ["inputs", "histories", "configurations"], "file sets with each of the three shipped schemas, sequences of selections and readings within the bounds, kinds of invalid document",
    "Tests read one file set at a time, and valid files only.",
    [NM, "punx/nxdl_schema.py", "punx/schema_manager.py", "punx/validate.py"], [("choice of the schema", "punx/validate.py validate_xml_tree"), ("reading of the schema", "punx/nxdl_schema.py, punx/schema_manager.py")],
    observe=["NXDL_Manager.classes or exception", "SchemaManager.nxdl"],
)

prop(
    "N05", "The XML Schema of the NXDL language is understood as it is written",
    "For every nxdl.xsd and nxdlTypes.xsd of the form NeXus publishes, the description of the schema has exactly the declared attributes and elements of definition, group, field, link, attribute, dimensions, enumeration and symbols, each attribute with its declared type, use, default, enumerated values and patterns; the name rules with their patterns (those of the base rule included) and lengths; the data types with base, members and values; and the units. The defaults used for class definitions are the declared ones. Comments, annotations and the layout of the files make no difference.",
    ["inputs", "configurations"], "one more declaration of any kind, with any name, values and place, in the schema of a shipped file set, comments and annotations anywhere, both layouts",
    "Tests count the items of the shipped schemas.",
    ["punx/schema_manager.py", "punx/nxdl_schema.py"], [("description", "punx/schema_manager.py SchemaManager, Schema_Root, Schema_Type, Schema_Element, Schema_Attribute"), ("defaults", "punx/nxdl_schema.py NXDL_item_catalog, NXDL_Summary")],
    observe=["SchemaManager(path).nxdl: attrs, children, patterns, types, units", "NXDL_Summary(path)"],
)

MAIN = "punx/main.py"
prop(
    "L01", "The command line runs the subcommand that was asked for, with what was given",
    "punx runs exactly the subcommand whose name, or unambiguous abbreviation of two or more letters, is given, and passes it exactly the values of the documented options (in either spelling, before or after the file name) and the documented defaults for those left out; an unknown subcommand, a number that is none, or no subcommand at all ends with a message and a non-zero exit code, and nothing is run.",
    ["inputs"], "all words within the bounds for subcommands, file names, file set names, numbers and selections, all spellings and orders of the options",
    "Tests run a few command lines.",
    [MAIN], [("arguments", "punx/main.py parse_command_line_arguments, MyArgumentParser, main")],
    observe=["main.main(), the arguments the subcommands get, exit codes, messages"],
)
prop(
    "L02", "punx validate reports that file, by that file set, restricted as asked",
    "punx validate shows exactly the report of the library for that data file with the requested file set (the default one, if none is requested), restricted to exactly the statuses requested with --report, in any case of letters, and names the file set used. NXDL files are reported valid exactly if they are, by the schema of the file set. An unknown status or file set, a missing file and a file that is not HDF5 end with a message that tells so and exit code 1, without a report.",
    ["inputs", "configurations"], "all selections and file set names within the bounds, kinds of file, file sets",
    "Tests run a few command lines and look at the exit code.",
    [MAIN, "punx/validate.py"], [("punx validate", "punx/main.py func_validate"), ("report", "punx/validate.py print_report")],
    observe=["main.main(): output, exit code, messages"],
)
prop(
    "L03", "punx tree lists that file as requested",
    "punx tree shows exactly the library's listing of the data file, with attributes unless -a is given and with the number of array items given with -m; of an NXDL file it shows every declared item, by the style of its category. A missing file, one that is neither HDF5 nor NXDL, and an NXDL file without a known category end with a message that tells so and exit code 1.",
    ["inputs", "configurations"], "all names, limits and options within the bounds, NXDL files of every category, kinds of unreadable file",
    "Tests run a few command lines with sample files.",
    [MAIN, "punx/h5tree.py", "punx/nxdltree.py"], [("punx tree", "punx/main.py func_tree"), ("NXDL", "punx/nxdltree.py NxdlTreeView")],
    observe=["main.main(): output, exit code, messages"],
)
CM = "punx/cache_manager.py"
prop(
    "C01", "The file sets of both caches are listed and selected as they are there",
    "Every directory of the shipped and of the user cache with a readable description is one file set, known by the name of the directory, listed once with its cache, date, short SHA and directory (one of the user cache in place of a shipped one of the same name); a damaged or incomplete description of one set never keeps punx from using the others. Requested by name, exactly that set is selected; without a name, or for an unknown one, a set with the latest date.",
    ["inputs", "configurations"], "all user caches, names, dates, descriptions and requests within the bounds",
    "Tests look at the shipped cache, with an empty user cache or one downloaded set.",
    [CM], [("listing", "punx/cache_manager.py Base_Cache.all_file_sets, CacheManager.find_all_file_sets"), ("selection", "punx/cache_manager.py CacheManager.select_NXDL_file_set, default_file_set")],
    observe=["table_of_caches(), CacheManager.select_NXDL_file_set(), punx configuration"],
)
prop(
    "C02", "punx install leaves exactly the published file set in the user cache",
    "After a successful punx install the set of that name in the user cache consists of exactly the NXDL, XML Schema and style files of the top and of the three category directories of the published archive, byte for byte, described by the name, the archive's SHA and newest date; other sets are untouched and the default reported is the latest then there. A set that is there is kept as it is unless an update is asked for, then replaced entirely. If the server gives no archive, the command ends with an error and the cache is as before.",
    ["inputs", "configurations"], "all names, archives, answers of the server and caches before within the bounds",
    "Tests download from the network (or are skipped) and look at one set.",
    [CM, MAIN], [("installation", "punx/cache_manager.py download_file_set, extract_from_zip"), ("command", "punx/main.py func_install")],
    observe=["files of the user cache, table_of_caches(), output and exit code of punx install"],
)
prop(
    "C03", "An installation that does not come to its end damages nothing",
    "If punx install is killed, interrupted or fails at any moment, every file set listed afterwards is complete: the one before, or the new one (the set may be missing only after a kill), other sets are as before, the default set can be used, and a failure is never reported as success. Repeating the installation then gives exactly the published set.",
    ["crash_points", "fault_sequences"], "every operation of the installation on the file system, three kinds of failure there, states of the cache before",
    "No test stops an installation.",
    [CM], [("installation", "punx/cache_manager.py download_file_set"), ("listing", "punx/cache_manager.py Base_Cache.all_file_sets")],
    observe=["files of the user cache, table_of_caches(), punx configuration, punx install again"],
)
prop(
    "C04", "Processes that use the cache during an installation see complete file sets",
    "At any moment of an installation, another punx process lists only complete file sets (the one before or the new one), never fails, and can select the default set; this also holds if the installation takes place while the other process reads the cache. Two installations at the same time leave a complete set that one of them, or a later one, installed, and no other set is touched.",
    ["schedules"], "every moment of one process for the other process to run, states of the cache before",
    "No test runs two processes.",
    [CM], [("installation", "punx/cache_manager.py download_file_set"), ("listing", "punx/cache_manager.py Base_Cache.all_file_sets")],
    observe=["table_of_caches(), punx configuration, punx install of the other process"],
)
prop(
    "C05", "Every way into punx works with the file set that was asked for",
    "The validator, the class model, the schema, punx validate (for data files and for NXDL files) and punx demonstrate work with the file set of the requested name, and without a name (the library also for an unknown one) with a set of the latest date, as listed for both caches (in a process that has not selected another one): the classes, the schema, its types and the name told are all those of the directory of that one set, also if the user cache has a set with the name of a shipped one, and for requests by name one after the other in one process, where what an earlier request returned stays with its set. punx demonstrate shows the output of the two commands it names.",
    ["inputs", "configurations"], "all states of the caches, requests and entry points within the bounds",
    "Tests use the shipped file sets, one entry point at a time, and an empty user cache; a set mixed from two directories looks alike there.",
    ["punx/nxdl_manager.py", "punx/schema_manager.py", MAIN, CM],
    [("class model", "punx/nxdl_manager.py NXDL_Manager"), ("schema", "punx/schema_manager.py SchemaManager, get_default_schema_manager; punx/cache_manager.py NXDL_File_Set.schema_manager"), ("commands", "punx/main.py func_validate, func_demo")],
    observe=["Data_File_Validator(ref), NXDL_Manager(ref), SchemaManager(path), punx validate, punx demonstrate"],
)
