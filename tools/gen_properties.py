"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json
import os

NAF = "nappy/na_file/"
NCI = "nappy/nc_interface/"
UT = "nappy/utils/"
ALLFFI = [NAF + "na_file.py"] + [NAF + "na_file_%d.py" % f for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Written files follow the NASA Ames record layout",
     "Writing consistent contents in any of the nine supported formats produces a file whose lines are exactly the records the published format specification prescribes for that format, in that order: header lines, then data records, with each value in its prescribed place and nothing else. Header numbers, counts, names and comments read back exactly; missing values and data numbers read back as the value rounded by the requested number format.",
     ["inputs", "configurations"], "all header texts and numbers, all data values, all format indices, all numbers of variables, auxiliary variables, axes, axis lengths, comments and records, all number formats and blank delimiters",
     "The tests write a few stored examples and compare with themselves; no test has an independent reader, and axis or variable counts where two loops could be swapped (more than one variable, unequal axis lengths) are mostly absent.",
     ALLFFI + [UT + "list_manipulator.py"],
     [("per-format header writers", NAF + "na_file_*.py writeHeader"), ("per-format data writers", NAF + "na_file_*.py writeData"),
      ("common header sections", NAF + "na_file.py _writeCommonHeader/_writeVariablesHeaderSection/_writeAuxVariablesHeaderSection/_writeComments"),
      ("nested list writer", UT + "list_manipulator.py RecursiveListManipulator.writeLines")],
     observe=["text of the file after write()/close()"])

prop("C02", "Every legally laid out file is read correctly",
     "Reading a file that follows the format specification yields exactly the contents recorded in it, for all nine formats. This holds whatever free layout the specification allows: number records wrapped over several lines, any run of blanks between values, blank lines at the end of the file, and explanatory text in curly braces after numeric header values.",
     ["inputs", "configurations"], "all contents and all layouts (line breaks inside records, blanks, brace annotations, trailing blank lines) of conforming files",
     "Tests read around twenty stored files, each with one fixed layout; wrapping of records and annotations at every possible position is never varied.",
     ALLFFI + [UT + "text_parser.py", UT + "right_strip.py", UT + "list_manipulator.py"],
     [("per-format header readers", NAF + "na_file_*.py readHeader"), ("record assembly from several lines", UT + "text_parser.py readItemsFromUnknownLines"),
      ("annotation stripping", UT + "right_strip.py rightStripCurlyBraces"), ("nested list population", UT + "list_manipulator.py populator"),
      ("data loop", NAF + "na_file.py readData")],
     observe=["contents dictionary after readData()"])

prop("C03", "Write then read returns the same contents",
     "Contents written in any supported format and read back by the library are the same contents: every header item, name, comment, axis, auxiliary and primary value is equal, data values to within the requested number format. Missing values in the header have the form they have among the data, so that a point which was missing still equals the declared missing value. Writing what was read and reading it again changes nothing further.",
     ["inputs", "histories", "configurations"], "all contents of all nine formats, all number formats and blank delimiters, repeated write/read cycles",
     "Round trips are tested on stored sample files only; symmetric errors, unusual sizes and second-generation copies are not sampled.",
     ALLFFI + ["nappy/nappy_api.py", NAF + "na_core.py", UT + "text_parser.py"],
     [("open for reading or writing", "nappy/nappy_api.py openNAFile"), ("contents dictionary", NAF + "na_core.py getNADict"),
      ("readers and writers", NAF + "na_file_*.py")],
     observe=["contents dictionary of the written file"])

prop("C04", "Declared header length is always exact",
     "The first line of every written file states the true number of header lines and the format index, so that the data section starts exactly after that many lines, whatever length was supplied in the contents and with or without the annotation column or comma delimiters. Reading a file reports the header length and format index written in it.",
     ["inputs", "configurations"], "any supplied header length, any number of variables, auxiliary variables and comments, annotation on or off, any delimiter, all formats",
     "Tests compare a handful of stored headers; header length depends on every count and option together.",
     [NAF + "na_file.py"] + ALLFFI[1:] + [NAF + "na_core.py"],
     [("header length correction", NAF + "na_file.py _fixHeaderLength"), ("top line", NAF + "na_file.py _writeCommonHeader/_readTopLine"), ("accessors", NAF + "na_core.py getNumHeaderLines/getFFI")],
     observe=["first line and line count of the file"])

prop("C05", "Writing never changes the caller's contents",
     "Writing a file leaves the contents supplied by the caller unchanged in every item and nested list, except that the format index may be added when it was absent. Consequently writing the same contents again, to another file or with other options, gives the same result as the first time.",
     ["inputs", "histories", "configurations"], "all contents of all nine formats; any sequence of writes of the same contents with any options",
     "Tests write each dictionary once and never inspect it afterwards; in-place reversal of axis lists only shows on reuse.",
     ALLFFI + ["nappy/nappy_api.py", NAF + "na_core.py"],
     [("contents parsing", NAF + "na_file.py _parseDictionary"), ("axis order reversal", NAF + "na_file_2010.py/2110/2160/2310 writeHeader, writeData"), ("contents copy", NAF + "na_core.py setNADict")],
     observe=["the supplied dictionary before and after write()"])

prop("C06", "Annotation and no-header options change presentation only",
     "A file written without header is exactly the data section of the same contents written with header. A file written with annotations has the same lines as the plain file except that each line is preceded by one leading label column, which never alters any value or the number of lines, apart from the free choice of blanks inside a line.",
     ["inputs", "configurations"], "all contents of all nine formats, all combinations of annotation, no-header and delimiter",
     "Options are tested one at a time on one or two sample files.",
     ALLFFI + [UT + "common_utils.py", UT + "parse_config.py", "nappy/config/annotations.ini"],
     [("annotation prefixing", UT + "common_utils.py annotateLine/annotateLines/getAnnotation"), ("header suppression", NAF + "na_file.py write"), ("data writers", NAF + "na_file_*.py writeData")],
     observe=["text of the files"])

prop("C07", "CSV output carries the same values separated by commas",
     "Converting a NASA Ames file to CSV, for every format, gives the same lines with the same values as the NASA Ames file, with commas between values, and neither drops, adds, merges nor alters any. The no-header and annotation options act as for ordinary writing, and the output name defaults to the input name with a csv extension.",
     ["inputs", "configurations"], "all contents of all nine formats, all values, annotation and no-header options, default and explicit output names",
     "Two stored examples are converted in the tests and only checked for existence.",
     ["nappy/nappy_api.py"] + ALLFFI,
     [("conversion", "nappy/nappy_api.py convertNAToCSV"), ("delimiter use", NAF + "na_file.py write and na_file_*.py"), ("trailing delimiter removal", NAF + "na_file_*.py writeData")],
     observe=["text of the csv file"])

prop("C08", "Malformed records are rejected, never misread",
     "A file whose data or header does not have the structure its own header declares is reported as an error: a record with too few or too many values, a blank line inside the data section, a count line with the wrong number of items, or text where a number is required. Reading either returns contents with exactly the declared dimensions or raises; it never silently drops, shifts or invents values.",
     ["inputs", "fault_sequences"], "every conforming file with one structural fault: a value inserted into or removed from any record, a blank line at any place of the data section, a non-numeric token at any numeric place",
     "Two tests feed one malformed file each; the position and kind of the fault are never varied.",
     [UT + "text_parser.py", NAF + "na_file.py"] + ALLFFI[1:],
     [("item count checks", UT + "text_parser.py readItemsFromLine/readItemsFromUnknownLines"), ("blank line check", NAF + "na_file.py _checkForBlankLines"), ("data loop", NAF + "na_file.py readData")],
     observe=["exception or contents"])

prop("C09", "Truncated files end in an error or a whole prefix, never a hang",
     "If a file is cut off after any number of lines, opening and reading it terminates. The result is either an error or contents equal to a prefix of the original records - whole records only, each with all its values; a cut inside the header is always an error when any declared header line is missing.",
     ["crash_points", "inputs"], "every cut point between lines of every conforming file of every format",
     "No test reads a truncated file; the reader loops until enough items were seen, so termination depends on the cut point.",
     [UT + "text_parser.py", NAF + "na_file.py"] + ALLFFI[1:],
     [("loops until enough items", UT + "text_parser.py readItemsFromUnknownLines"), ("header lines", NAF + "na_file.py _readLines/_readCommonHeader"), ("data loop", NAF + "na_file.py readData")],
     observe=["termination, exception or contents"])

prop("C10", "Reading is repeatable and independent of call history",
     "Reading the data of an opened file any number of times, before or after asking for its contents dictionary or metadata, gives the same contents as reading it once. Two readers of the same file, or readers and writers of different files used alternately, do not influence each other.",
     ["histories", "inputs"], "all sequences of read, contents and metadata calls on one or two open files of any format",
     "Tests read each file once; accumulating state only shows on the second call.",
     [NAF + "na_file.py", NAF + "na_core.py"] + ALLFFI[1:],
     [("array set-up before reading", NAF + "na_file_*.py _setupArrays"), ("data loop", NAF + "na_file.py readData"), ("contents dictionary", NAF + "na_core.py getNADict")],
     state=[("X, V, A, NX, DX of the file object", "contents accumulated by readData")])

prop("C11", "Implied axis values are expanded exactly",
     "Where a file records only the first value of a constant-interval axis, or only every n-th value of the main axis, the axis attached to converted data has its declared full length and its i-th value is the first value plus i times the declared interval. Axes recorded in full are never altered, and expanding twice is the same as expanding once.",
     ["inputs", "histories"], "all axis starts, intervals, lengths and combinations of recorded and implied axes of the formats with implied values (implied main-axis values, and two to four dimensional grids)",
     "One stored file has an implied axis; the mixed case of recorded and implied axes and the main-axis case are untested.",
     [NAF + "na_file_1020.py", NAF + "na_file_2010.py", NCI + "na_to_xarray.py"],
     [("axis expansion", NAF + "na_file_2010.py/_1020.py _normalizeIndVars"), ("axis conversion", NCI + "na_to_xarray.py _convertNAIndVarToXarrayAxis")],
     state=[("normalised flag", "whether implied values were already expanded")])

prop("C12", "The right format is selected for every file and dictionary",
     "Opening a file for reading uses the format index on its first line after the declared number of ignored lines, and those lines are kept in order. Opening for writing uses the format index in the contents, or if there is none the one that the shape of the contents implies; more than four independent variables are refused.",
     ["inputs", "configurations"], "all first lines, all numbers and texts of ignored lines, all contents with and without a format index, all axis shapes",
     "Selection is tested on stored files; shapes near the decision boundaries (single points, strings, nested lists) are not.",
     [UT + "common_utils.py", "nappy/nappy_api.py", NAF + "na_file.py"],
     [("format choice", UT + "common_utils.py chooseFFI"), ("first line", UT + "common_utils.py readFFI"), ("dispatch", "nappy/nappy_api.py openNAFile, common_utils.getNAFileClass"), ("ignored lines", NAF + "na_file.py _readCommonHeader")],
     observe=["class and attributes of the opened file"])

prop("C13", "Metadata queries report what the header says",
     "For every variable, auxiliary variable and axis, in order, the query functions return its own missing value and scale factor and its name split into name and units taken from the last bracketed group, losing no other text; names without brackets have no units. A user-supplied splitting function replaces this rule, and each header field query returns its own field.",
     ["inputs"], "all header texts, names with and without brackets, all counts, all indices, arbitrary splitting functions",
     "Tests query a few stored names; indices into several parallel lists and bracket placement are not varied.",
     [NAF + "na_core.py"],
     [("name and units split", NAF + "na_core.py _attemptVarAndUnitsMatch"), ("queries", NAF + "na_core.py getVariable(s)/getAuxVariable(s)/getIndependentVariable(s) and header getters")],
     observe=["values returned by the query functions"])

prop("C14", "A written file is written once and only through a writer",
     "Writing through a file opened for reading, writing twice through one writer, and writing after closing are refused with an error and leave the file's text unchanged. After the first successful write the complete text is on disk even if the file is never closed.",
     ["histories"], "all sequences of open, write, flush, close, context exit and re-open calls",
     "One test exercises one order of calls; sequences are not enumerated and file contents after a refused call are not checked.",
     [NAF + "na_file.py"],
     [("write guards", NAF + "na_file.py write"), ("open and close", NAF + "na_file.py _open/close/__exit__/__del__")],
     state=[("mode, data_written, is_open", "life cycle of the file object")], observe=["file text after each call"])

prop("C15", "NetCDF to NASA Ames keeps every variable exactly once",
     "When a set of variables is converted, every selected variable that is not a coordinate or bounds variable appears exactly once over all the contents produced: as a primary variable, an auxiliary variable or a singleton listed in the comments with its value, whether a number, a text or a date. None is lost or written twice whatever their ranks, shapes, axes, order and previous NASA Ames numbering, and the conversion always terminates.",
     ["inputs", "configurations"], "all sets of variables of rank 0 to 4 with arbitrary axis values and sharing, any order, with or without numbering attributes, with selection and exclusion lists",
     "Tests convert a few stored datasets whose variables are all compatible; grouping decisions depend on axis values and order.",
     [NCI + "xarray_to_na.py", NCI + "na_content_collector.py", NCI + "nc_to_na.py"],
     [("grouping", NCI + "na_content_collector.py _analyseVariables"), ("repeated collection", NCI + "xarray_to_na.py convert"), ("re-ordering", NCI + "na_content_collector.py _reorderVarsIfPreviouslyNA, xarray_to_na.py _reorderVars"), ("selection", NCI + "nc_to_na.py _readXarrayFile")],
     state=[("unused_vars", "variables left for the next output")], observe=["dictionaries returned by convert()"])

prop("C16", "Variables share an output only if their axes are identical",
     "Primary variables are put in one output only if all their axes agree in name, units and every coordinate value with the axes written in it, and a variable becomes auxiliary only if its single axis is the output's first axis. Otherwise they go to separate outputs, so no value is ever attached to coordinates that are not its own.",
     ["inputs"], "all pairs and triples of variables with arbitrary axis names, units, lengths and coordinate values",
     "Stored datasets have fully identical axes; axes that agree in some values only are not tested.",
     [NCI + "na_content_collector.py", NCI + "xarray_utils.py"],
     [("axis comparison", NCI + "xarray_utils.py areAxesIdentical/isAxisRegularlySpacedSubsetOf"), ("grouping", NCI + "na_content_collector.py _analyseVariables")],
     observe=["grouping in the dictionaries returned by convert()"])

prop("C17", "Converted values and missing data are exact",
     "Every value of a converted variable appears unchanged at its own index in the output contents, and every missing point appears as exactly the missing value declared for that variable, which is the source's fill value or, if it has none or it is not a number, a fixed default. This holds whatever the type of the source's numbers. Scale factors are one, names carry units, and no value of one variable shows up under another.",
     ["inputs"], "all values and patterns of missing points, all fill values, ranks 1 to 4, primary and auxiliary variables, with and without previous numbering",
     "Tests check file existence or a few values of stored data; patterns of missing points and ordering are not varied.",
     [NCI + "na_content_collector.py", NCI + "xarray_utils.py"],
     [("value extraction", NCI + "xarray_utils.py getArrayAsList/getMissingValue/getBestName"), ("variable definition", NCI + "na_content_collector.py _defineNAVars/_defineNAAuxVars")],
     observe=["V, VMISS, VSCAL, VNAME, A, AMISS of the contents"])

prop("C18", "Axis definitions expand to the source coordinates",
     "The axis lengths, intervals and recorded values in produced contents describe exactly the source coordinates: recorded values are the source's, a non-zero interval is given exactly if the spacing is constant, and expanding implied values as the format prescribes gives back every coordinate. If the first axis is time, the date of the contents is that of its first point in the axis' own calendar. This holds for every requested format that the data allows.",
     ["inputs", "configurations"], "all coordinate values, lengths and spacings of every axis, ranks 1 to 4, requested formats 1001, 1010, 2010, 2110, 2310, 3010, 4010",
     "Stored datasets have long regular axes; short and irregular axes and the requested two-dimensional formats are barely covered.",
     [NCI + "na_content_collector.py", NCI + "xarray_utils.py"],
     [("axis definition", NCI + "na_content_collector.py _defineNAVars/_appendAxisDefinition"), ("intervals", NCI + "xarray_utils.py get_interval/isUniformlySpaced")],
     observe=["X, NX, NXDEF, DX, A of the contents"])

prop("C19", "Converted contents are consistent and can be read back",
     "Contents produced from any convertible set of variables have counts equal to the lengths of the lists they count, a format index that fits them, and a file written from them is read back with the same values.",
     ["inputs", "configurations"], "all convertible sets of variables, all requested formats, all attributes and comments",
     "Tests write a few stored datasets; consistency between counts and lists is not checked independently.",
     [NCI + "na_content_collector.py", NCI + "xarray_to_na.py"] + ALLFFI[:1],
     [("dictionary assembly", NCI + "na_content_collector.py collectNAContent"), ("format decision", NCI + "na_content_collector.py _decideFileFormatIndex"), ("column headers", NCI + "xarray_to_na.py _updateWithColumnHeaders")],
     observe=["contents dictionary; file written from it"])

prop("C20", "Size-limited output is a lossless partition",
     "With a row limit, one-dimensional output without auxiliary variables is split into consecutive files of at most that many rows whose data sections concatenated equal the unsplit data, with consecutive volume numbers and the correct total in every header. Each file is reported exactly once, output within the limit is not split, and the other output options still apply.",
     ["inputs", "configurations"], "all numbers of rows and limits, any number of variables, any values, all file names and output options",
     "One test splits one file with one limit and checks existence only.",
     [NCI + "xarray_to_na.py", UT + "common_utils.py"],
     [("splitting", NCI + "xarray_to_na.py _writeNAFileSubsetsWithinSizeLimit"), ("block contents", UT + "common_utils.py modifyNADictCopy"), ("limit test", NCI + "xarray_to_na.py writeNAFiles")],
     observe=["files written and file names returned"])

prop("C21", "Global attributes reach the header or the comments",
     "Converting global attributes puts source, title and institution into their own header lines, splits an institution and comment text that came from a NASA Ames file back into the original fields, and keeps every other text or number attribute, and every text or number attribute of the converted variables, as comment lines. No attribute is lost, attached to another field, or able to break the line structure of the header; format index, header length and volume numbers of an earlier file are computed anew, and blank lines need not be kept.",
     ["inputs"], "all attribute names and texts, present or absent in any combination and order, including multi-line texts",
     "Stored files carry one fixed set of attributes.",
     [NCI + "na_content_collector.py", "nappy/config/nappy.ini"],
     [("global attribute mapping", NCI + "na_content_collector.py _defineNAGlobals"), ("comments", NCI + "na_content_collector.py _defineNAComments"), ("dates", NCI + "na_content_collector.py _defineGeneralHeader")],
     observe=["header items of the contents"])

prop("C22", "Header overrides apply exactly where asked",
     "Permitted header overrides replace (or, for comments, precede) the corresponding header items in every output file of that conversion and change nothing else; items that may not be overridden are ignored. Overrides never leak into a later conversion, and locally configured defaults apply when no override is given.",
     ["inputs", "histories", "configurations"], "all sets of override items and values, one or several output files, sequences of conversions",
     "One test overrides one item once.",
     [NCI + "xarray_to_na.py", UT + "parse_config.py"],
     [("override loop", NCI + "xarray_to_na.py writeNAFiles"), ("comment merge", NCI + "xarray_to_na.py _cleanWrapComments"), ("local defaults", UT + "parse_config.py getLocalAttributesConfigDict")],
     state=[("cached configuration", "must not be modified by overrides")], observe=["headers of the files written"])

prop("C23", "Output names are predictable, distinct and reported",
     "The names announced for a conversion are exactly the names then written (when no row limit splits them): the requested name itself for a single output, otherwise the requested name with a running number before its extension, all distinct. Default names replace a one- to three-letter extension of the input's name by that of the output format and keep the rest of the path.",
     ["inputs", "configurations"], "all base names (any number of dots, no extension, directories), any number of outputs",
     "Tests use names with exactly one dot and two-letter extension.",
     [NCI + "xarray_to_na.py", UT + "common_utils.py", "nappy/nappy_api.py"],
     [("name construction", NCI + "xarray_to_na.py constructNAFileNames"), ("default names", UT + "common_utils.py getFileNameWithNewExtension")],
     observe=["names returned and files written"])

prop("C24", "Converted NASA Ames variables carry value times scale and own metadata",
     "Converting a file to array objects gives, for each primary and auxiliary variable, the recorded values times that variable's scale factor on the file's own axes (missing values keep the fill value), with its fill value, units, name and running number taken from its own header entries. Axes carry the recorded coordinate values, names and units in order.",
     ["inputs"], "all values, scale factors, missing values, names and units, formats 1001, 1010, 1020, 2010, 3010, 4010, any number of variables",
     "Tests convert stored files whose scale factors are all one.",
     [NCI + "na_to_xarray.py", NCI + "xarray_utils.py", NAF + "na_core.py"],
     [("variables", NCI + "na_to_xarray.py _convertNAToXarrayVariable/_convertNAAuxToXarrayVariable"), ("axes", NCI + "na_to_xarray.py _convertNAIndVarToXarrayAxis"), ("arrays", NCI + "xarray_utils.py create_data_array")],
     observe=["array objects returned"])

prop("C25", "NASA Ames to NetCDF writes every selected variable once",
     "Every selected primary and auxiliary variable of the file is present exactly once in the NetCDF output, selected by index or by full name, in all when no selection is given, and renamed exactly as requested for its NetCDF name. Unknown names are refused, and two variables never overwrite each other.",
     ["inputs", "configurations"], "all names (including equal ones and ones that become equal after cleaning), all selections, all rename maps, any number of variables",
     "Stored files have distinct names; selection and renaming are tested with one example.",
     [NCI + "na_to_nc.py", NCI + "na_to_xarray.py", "nappy/nappy_api.py"],
     [("dataset assembly", NCI + "na_to_nc.py writeNCFile"), ("selection and renaming", NCI + "na_to_xarray.py _convertXarrayVariables/_convertXarrayAuxVariables"), ("entry points", "nappy/nappy_api.py convertNAToNC/getXarrayVariableFromNA")],
     observe=["variables of the NetCDF output"])

prop("C26", "Header text survives conversion to NetCDF attributes and back",
     "Originator, organisation, source, mission, dates and all special and normal comment lines of a NASA Ames file appear in the global attributes after conversion, and converting those attributes back gives the same originator, organisation, source and mission and comment sections containing every original comment line that is not blank, in order and in its own section. User-supplied global attributes of other names are kept, in order.",
     ["inputs", "histories"], "all header texts and comment lines, any number of them, any additional attributes",
     "Tests look at one or two attributes of stored files.",
     [NCI + "na_to_xarray.py", NCI + "na_content_collector.py", "nappy/config/nappy.ini"],
     [("comments to attributes", NCI + "na_to_xarray.py _mapNACommentsToGlobalAttributes"), ("attributes to comments", NCI + "na_content_collector.py _defineNAGlobals/_defineNAComments")],
     observe=["global attributes; SCOM and NCOM after the way back"])

prop("C27", "File comparison never calls different files identical",
     "Comparing two files reports identical if and only if the compared parts hold the same items line by line: numbers by value (within one percent under approximate comparison, by text under strict comparison), other items by text, delimiters aside, and the same number of lines. Restricting the comparison to header or body ignores the other part.",
     ["inputs", "configurations"], "all pairs of files differing in any item, line or length, all comparison options",
     "The comparison tool is used by tests to judge other code but is itself not tested on differing files.",
     [UT + "compare_na.py", UT + "compare.py"],
     [("line comparison", UT + "compare_na.py compareSections"), ("sections", UT + "compare_na.py compNAFiles"), ("options", UT + "compare_na.py parseArgs")],
     observe=["returned verdict"])

prop("C28", "Nested lists and option strings convert without loss",
     "Filling a nested list of any shape from a flat list and writing it out again yields the same values in the same order, one line per innermost row. Comma-separated option strings convert to exactly the listed pairs in order, and an odd number of items is refused.",
     ["inputs"], "all shapes up to four dimensions, all values, all option strings",
     "Tests use one shape and one string.",
     [UT + "list_manipulator.py", UT + "common_utils.py"],
     [("nested lists", UT + "list_manipulator.py RecursiveListManipulator"), ("option strings", UT + "common_utils.py makeDictFromCommaSepString/makeListFromCommaSepString")],
     observe=["returned values"])

prop("C29", "Command line options reach the conversion unchanged",
     "Each documented command line option, in any combination and order, sets exactly its own conversion argument to the given value, and all others keep their documented defaults; unknown options and a missing input file end the program with usage information instead of a conversion.",
     ["configurations", "inputs"], "all subsets and orders of documented options with arbitrary values for the three commands",
     "Tests run each command with one or two option combinations.",
     ["nappy/script/na2nc.py", "nappy/script/nc2na.py", "nappy/script/nc2csv.py"],
     [("option parsing", "nappy/script/*.py parseArgs"), ("dispatch", "nappy/script/*.py na2nc/nc2na/nc2csv")],
     observe=["arguments of the conversion call"])

prop("C30", "Conversion entry points pass their options through",
     "The conversion functions of the library interface write the same files as the corresponding step-by-step conversion with the same options: output name, delimiter, number format, row limit, annotation, header suppression, overrides, selection and requested format are all honoured, the comma-separated variants always use commas, and the names returned are the files written.",
     ["configurations", "inputs"], "all combinations of options of the NetCDF, array object and CSV conversion functions, with and without an explicit output name",
     "Each entry point is called with default options or not at all by the tests.",
     ["nappy/nappy_api.py", NCI + "xarray_objs_to_na_files.py", NCI + "nc_to_na.py"],
     [("entry points", "nappy/nappy_api.py convertNCToNA/convertNCToCSV/convertXarrayObjectsToNA/convertXarrayObjectsToCSV"), ("array object converter", NCI + "xarray_objs_to_na_files.py")],
     observe=["files written and names returned"])

prop("C31", "Requested time units go to the time axis, and nowhere else",
     "In a conversion to NetCDF or to array objects, an axis whose name says time but whose own units are no valid time units carries exactly the time units given (as option or as the answer to a question, which is repeated until the answer is valid or empty). With none given it keeps its own units and description. Valid own units, other axes, and all axis values are never changed, and no question is asked where none is needed or where questions are switched off.",
     ["inputs", "configurations"], "NASA Ames contents of the convertible formats with the time axis in any place, arbitrary own, requested and answered units",
     "Tests convert files with one valid set of time units.",
     [NCI + "na_to_xarray.py", "nappy/nappy_api.py"],
     [("axis conversion", NCI + "na_to_xarray.py _convertNAIndVarToXarrayAxis"), ("entry point", "nappy/nappy_api.py convertNAToNC")],
     observe=["units, description and values of the axes", "questions asked"])

prop("C32", "Results do not depend on what was done before",
     "Every operation of the library - reading, writing, CSV output, comparison, queries, conversion in either direction, option and list handling - gives the same result (values, texts, files, names or refusal) on the same inputs and options in a process that has done any other operations before, successful or failed, also on files of the same names with other contents, as it gives as the first operation of a process. Doing it again gives the same result again.",
     ["histories", "inputs", "configurations"], "sequences of operations with arbitrary contents and options each",
     "Tests run each operation once, in one order, on fixed files of different names.",
     ["nappy/nappy_api.py", NAF + "na_file.py", NCI + "na_content_collector.py", NCI + "xarray_to_na.py", NCI + "na_to_xarray.py", "nappy/utils/common_utils.py", "nappy/script/na2nc.py"],
     [("entry points", "nappy/nappy_api.py"), ("module state", "nappy/utils/parse_config.py, " + NCI + "na_content_collector.py")],
     observe=["results, files and refusals of the last operation"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
