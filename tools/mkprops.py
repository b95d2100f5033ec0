#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
NAF = "nappy/na_file/na_file.py"
FFIS = ["nappy/na_file/na_file_%d.py" % f for f in (1001,1010,1020,2010,2110,2160,2310,3010,4010)]
API = "nappy/nappy_api.py"
CU = "nappy/utils/common_utils.py"
TP = "nappy/utils/text_parser.py"
COL = "nappy/nc_interface/na_content_collector.py"
X2N = "nappy/nc_interface/xarray_to_na.py"
N2X = "nappy/nc_interface/na_to_xarray.py"
N2NC = "nappy/nc_interface/na_to_nc.py"
NC2N = "nappy/nc_interface/nc_to_na.py"
XU = "nappy/nc_interface/xarray_utils.py"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("P01", "A data set written to a file is read back unchanged",
 "For each of the nine supported file format indices, writing a complete dictionary describing a data set and then opening and reading the file gives back the same header fields, comment lines, independent variables, auxiliary variables and primary variables, each value in the same position, to the precision of the number format used. (Texts are single lines without surrounding blanks, enclosing quotes or a trailing annotation in curly braces.)",
 ["inputs"], "every format index; any number of variables, auxiliary variables, marks and bounded-dimension lengths (including lengths that change from mark to mark, partly listed axes and character variables); any comments and names",
 "The tests write back nine sample files, each with one shape, and compare only as text with a tolerant comparer.",
 [NAF]+FFIS, [("per-format header and data readers and writers", "nappy/na_file/na_file_*.py"), ("token reader", TP)],
 ["openNAFile(...,'w').write()", "openNAFile(...).readData()/getNADict()"])

prop("P02", "Every written file conforms to the NASA Ames layout of its format index",
 "A file written with the default options is, by itself, a well-formed file of its format index: its first line states its true number of header lines and its index, every header item is where the format puts it with the number of values the format requires, and every data record holds the values of its mark, auxiliary and primary variables in the order the format defines. Decoding the file by the published format, independently of the library's reader, gives exactly the data set that was written.",
 ["inputs"], "every format index and every shape of data set",
 "Reader and writer share conventions, so a matching error in both passes every round trip; the tests never decode a written file independently.",
 [NAF]+FFIS, [("header writers and header line count", NAF), ("data writers", "nappy/na_file/na_file_*.py"), ("nested list writer", "nappy/utils/list_manipulator.py")],
 ["text of the file written by openNAFile(...,'w').write() and the convert functions"])

prop("P03", "Any well-formed layout of a file is read as the format defines",
 "Reading a file gives the data set the format defines, whatever legal layout the file uses: lists of numbers and data records spread over any number of lines, any amount of white space between and around items, trailing annotations in curly braces on numeric header lines, and a stated number of extra lines ahead of the header.",
 ["inputs"], "every format index, every shape of data set, every way of breaking its numeric lists and records over lines, every white-space and annotation pattern",
 "The sample files fix one layout each; combinations of layout, shape and format index are unbounded.",
 [NAF, TP, "nappy/utils/right_strip.py"]+FFIS, [("item readers that continue over lines", TP), ("annotation stripping", "nappy/utils/right_strip.py"), ("ignored leading lines", NAF)],
 ["openNAFile()", "readData()", "getNADict()"])

prop("P04", "A malformed or truncated file is rejected, never misread",
 "Opening and reading a file that is cut short inside its header or inside a data record, or whose counts, header length, number fields or records contradict one another, terminates and raises an error. It never hangs and never returns data with values missing, invented or attached to the wrong variable.",
 ["inputs", "crash_points"], "every truncation point and every single-line or single-field corruption (deleted, duplicated, non-numeric or surplus item, wrong count, wrong header length, blank line inside the data) of a file of any format index",
 "The tests read only well-formed files.",
 [NAF, TP]+FFIS, [("item count checks", TP), ("header length check and blank line check", NAF)],
 ["openNAFile()", "readData()"])

prop("P05", "A file handle allows exactly the operations of its mode and life cycle",
 "A handle opened for writing accepts one complete write and refuses any further write; a handle opened for reading and a closed handle refuse writing; an unknown mode is refused. A refused operation raises an error and leaves every file as it was, a finished write is complete on disk even before the handle is closed, a write that fails because the data set lacks something leaves nothing of itself and may be repeated once the data set is complete, and leaving a context manager closes the handle.",
 ["histories"], "every sequence of open, write, read, close and context-exit operations over several handles and files",
 "The tests never use a handle after its single write and never interleave handles.",
 [NAF, API], [("write-once, mode and closed-handle guards", NAF), ("mode dispatch", API)],
 ["openNAFile()", "write()", "close()", "file contents"],
 [("data_written/is_open/mode", "what a handle may still do", NAF)])

prop("P06", "Operations are repeatable and leave their inputs unchanged",
 "Writing a dictionary, apart from recording the chosen format index in it, does not change it, so writing it any number of times with any options gives the same file for the same options; reading the data of a handle repeatedly gives the same data set each time. Conversions leave their input files, xarray objects and argument objects unchanged, and their results do not depend on which operations were performed earlier in the process, on other open handles, on kept converter objects or on string hashing; when the user changes an input between operations, later operations go by what it holds then.",
 ["histories", "inputs"], "every sequence of writes, reads and conversions on shared dictionaries, handles, files and xarray objects",
 "Each test performs one operation on fresh objects; the damage shows only on the next operation.",
 [NAF, API, X2N, "nappy/utils/parse_config.py"]+FFIS, [("copies taken before reordering or overriding", "nappy/na_file/na_file_2010.py, nappy/nc_interface/xarray_to_na.py"), ("arrays reset before reading", "nappy/na_file/na_file_*.py"), ("cached configuration handed out as copies", "nappy/utils/parse_config.py")],
 ["dictionary before and after write()", "two files written from one dictionary", "readData() twice"])

prop("P07", "The format index always fits the structure of the data set",
 "The index chosen for a dictionary without one is the one whose layout represents its structure: by the number of independent variables, a character unbounded variable, per-mark lists of second-axis values or starting values, the presence of auxiliary variables and of implied points. Opening a file reports and dispatches on the index in its header, and indices or structures outside the nine supported ones are refused.",
 ["inputs"], "every dictionary structure, including single-mark, varying-length and degenerate ones, and every index in a file's top line",
 "The tests always supply the index in the dictionary or read sample files.",
 [CU, API], [("structure-based choice", CU), ("top-line reader", CU), ("class lookup", CU)],
 ["chooseFFI()", "readFFI()", "openNAFile()"])

prop("P08", "Presentation options change only the presentation",
 "Changing the delimiter, number format, annotation column or header suppression changes nothing but what the option names: the same items appear in the same lines and order, the annotation column is one extra leading item per header and data line, and suppressing the header leaves exactly the data section. The CSV conversion of a file equals writing its data set with commas.",
 ["inputs", "configurations"], "every combination of options, for every format index and shape",
 "The tests write a CSV and one annotated file and never look at suppressed headers or combined options.",
 [NAF, API, CU, "nappy/utils/list_manipulator.py"]+FFIS, [("line annotation", CU), ("delimiter and format threading", NAF), ("CSV wrapper", API)],
 ["text written by write(delimiter, float_format, annotation, no_header)", "convertNAToCSV()"])

prop("P09", "NetCDF to NASA Ames loses and duplicates no variable",
 "Converting a NetCDF file or a set of xarray objects writes every selected numeric variable (of at least one value) exactly once over all output files: as a primary variable, as an auxiliary variable, or, for single values, as a recorded comment. Exactly the variables asked for and not excluded are written, apart from coordinate axes and axis bounds.",
 ["inputs"], "every set of variables of ranks 0 to 4 over any pattern of shared, partly shared, equal-length and differing axes, with or without numbering from an earlier conversion, and every selection or exclusion",
 "The tests convert a few cached files with at most a few structures each and compare with stored output.",
 [COL, X2N, NC2N], [("grouping of variables into files", COL), ("loop over left-over variables", X2N), ("variable selection", NC2N)],
 ["files written by convertNCToNA()/convertXarrayObjectsToNA()"])

prop("P10", "NetCDF to NASA Ames keeps values, coordinates and grouping right",
 "Each output file groups only variables that share identical axes with its leading variable (the one of highest rank, then largest), with one-dimensional variables on its leading axis as auxiliary variables, and keeps any numbering from an earlier conversion. In it every value appears at the axis position it had in the source, axes are listed completely or with an exact constant increment, and names carry the source name and units.",
 ["inputs"], "every combination of variables and axes (uniform and non-uniform, single-valued, partially equal, numeric and time axes in any position) and of values",
 "Stored-output comparisons cover a handful of structures; axes that differ in a single value, or positions permuted together with their shape, are never sampled.",
 [COL, XU, X2N], [("axis comparison", XU), ("axis and variable definition", COL), ("restoring earlier numbering", COL)],
 ["data section and header of files written by convertNCToNA()"])

prop("P11", "A requested format index is honoured exactly or refused",
 "When a format index is requested for a conversion, every file written is a correct file of that index holding the source values or, when some group of variables cannot be held in that index, the conversion raises an error. Without a request the index is the standard one for the number of dimensions and the presence of auxiliary variables, and more than four dimensions are refused.",
 ["inputs", "configurations"], "every requested index against every structure of variables and axes",
 "Two tests request an index the data allow; no refusal and no data check exists.",
 [COL], [("index decision and limits", COL), ("index-specific axis reshaping", COL)],
 ["index and content of files written with a requested index"])

prop("P12", "Splitting by a row limit partitions the rows in order",
 "With a row limit, a one-dimensional output longer than the limit is written as consecutive volumes whose concatenated rows are the original rows in order, each volume but the last holding exactly the limit, and each numbered within the stated total number of volumes. Outputs not longer than the limit are written whole, and all other options apply to each volume.",
 ["inputs"], "every row count and positive limit, any number of variables, with every presentation option",
 "No test uses the limit.",
 [X2N, CU], [("volume loop", X2N), ("row slicing of the dictionary", CU)],
 ["files and file list from convertNCToNA(size_limit=...)"])

prop("P13", "Reported output names are exactly the distinct files created",
 "Every conversion reports precisely the files it creates, each once, with distinct names derived from the requested or default base name and its extension, and asking for names only creates nothing and gives the names that the same conversion without a row limit writes. No input path, whatever dots or directories it contains, makes a conversion write outside its directory or over its input.",
 ["inputs", "configurations"], "every base name (with and without extensions, dots in directories, short names), number of output files and volumes",
 "Tests use simple names and do not compare reports with the directory.",
 [X2N, CU, API], [("multi-file naming", X2N), ("extension replacement", CU), ("default names", API)],
 ["returned lists", "directory listing before and after"])

prop("P14", "Metadata overrides change exactly the named items, in every file",
 "An overridden header item (given on a single line; names as many as there are variables) has the given value in every output file, given comments are placed ahead of the existing ones without losing any, and no other item changes; the comment counts agree with the comments. Overrides that are not allowed are ignored, and neither overrides nor configured local attributes persist into later conversions.",
 ["inputs", "histories"], "every set of overrides applied to every kind of conversion result, in any sequence of conversions",
 "One test checks a few overridden fields in one file.",
 [X2N, "nappy/utils/parse_config.py"], [("override loop", X2N), ("comment insertion", X2N)],
 ["headers of files written with na_items_to_override"])

prop("P15", "The comparison verdict is right",
 "Comparing two files reports them the same exactly when the compared sections (header, body or both) have the same number of lines and every pair of lines is the same text or the same sequence of items, numbers being compared by value unless strict comparison is asked for, and to within one per cent when approximate comparison is asked for. The verdict does not depend on the delimiter declared for each file and is returned to the caller; the comparison command makes the comparison its options mean.",
 ["inputs", "configurations"], "every pair of files and every combination of options",
 "The tests only ever compare files that are the same.",
 ["nappy/utils/compare_na.py"], [("section comparison", "nappy/utils/compare_na.py")],
 ["compareNA()"])

prop("P16", "Metadata queries return the entry asked for, consistently split",
 "For every variable, auxiliary variable and independent variable, the name, units, missing value and scale factor returned by the metadata queries belong to the variable with that index, the list queries agree with the single queries, and name and units are split as the default rule, a replaced pattern or a user callback defines. Header queries return the header items they are named after.",
 ["inputs", "configurations"], "every number and naming of variables, every format index, default and replaced splitting rules",
 "Tests check a few names in one format.",
 ["nappy/na_file/na_core.py"], [("name and units pattern or callback", "nappy/na_file/na_core.py"), ("indexed getters", "nappy/na_file/na_core.py")],
 ["getVariable(s)", "getAuxVariable(s)", "getIndependentVariable(s)", "header getters"])

prop("P17", "NASA Ames to NetCDF puts every scaled value at its coordinates",
 "In the NetCDF file, or xarray objects, made from a NASA Ames file every primary and auxiliary value appears multiplied by its scale factor at the coordinates it has in the source, where implied axis values (constant increments and implied points) are written out in full. Every selected variable appears exactly once, in a NetCDF file under a distinct name (for files with distinct axis names and at least one value), unconvertible format indices and unknown variables are refused, and selection by name or index gives that variable.",
 ["inputs"], "every convertible format index (1001, 1010, 1020, 2010, 3010, 4010), shape, increment, scale factor and set of names",
 "Stored-output comparisons cover five sample files with scale factors of 1 and fully listed axes.",
 [N2X, N2NC]+FFIS[:4], [("axis expansion", "nappy/na_file/na_file_1020.py, nappy/na_file/na_file_2010.py"), ("variable conversion", N2X), ("data set assembly", N2NC)],
 ["convertNAToNC() output read with netCDF4", "readXarrayObjectsFromNA()", "getXarrayVariableFromNA()"])

prop("P18", "Missing values stay missing through every conversion",
 "A value that is missing in the source of a conversion is marked missing in its result, with the missing value declared for its variable, and a valid value never becomes missing (unless its scaled value is the declared missing value itself, when another one is declared for the result), whatever the scale factors, missing value and number format, as long as the format tells the two apart. Files written by a conversion state the missing value exactly as it appears in their data.",
 ["inputs"], "every missing value (large, negative, fractional, zero, single-precision, NaN), scale factor, position and conversion direction",
 "The sample files have few missing values and unit scale factors.",
 [N2X, COL, XU, NAF], [("scaling and fill value", N2X), ("missing value lookup and replacement", XU), ("header missing values", NAF)],
 ["_FillValue and data in NetCDF output", "VMISS/AMISS and data in NASA Ames output"])

prop("P19", "NASA Ames to NetCDF and back gives the data set back",
 "Converting a NASA Ames file of index 1001, 1010, 2010, 3010 or 4010 to NetCDF and converting that back gives a single file with the same independent variables, every variable with the same name (in the form it has in NetCDF), units, missing value and scaled values in the same order, the same originator, source and mission, and all its non-blank comment lines in order within its comment sections. Axes without units are marked as unknown, the organisation comes from the local configuration, and the start date is the same unless the leading axis has recognised time units, when it is the date of the first time.",
 ["inputs"], "every such file with distinct variable names and comment lines that are not section markers",
 "No test goes both ways and compares content.",
 [N2X, N2NC, COL, XU], [("numbering attributes", N2X), ("comment packing and unpacking", N2X+", "+COL), ("header mapping", COL)],
 ["file written by convertNCToNA(convertNAToNC(file))"])

prop("P20", "Global attributes and renaming reach the NetCDF output exactly",
 "The NetCDF output carries the mapped header items of the source file and each user-supplied global attribute whose name is not one of these, with its given value. A variable is renamed exactly when its converted name is in the given mapping, and its data, coordinates and other attributes stay the same.",
 ["inputs", "configurations"], "every header, set of extra attributes and rename mapping",
 "Two tests check one attribute and one rename in one format.",
 [N2X, "nappy/config/nappy.ini"], [("header to attribute mapping", N2X), ("renaming", N2X)],
 ["attributes and variables in convertNAToNC() output"])

prop("P21", "Appending adds to a NetCDF file, writing replaces it",
 "Converting in append mode keeps every variable, value and global attribute name already in the target file and adds the converted ones; in write mode the target holds only the converted content. This holds for any sequence of conversions into the same target, from files or dictionaries.",
 ["histories"], "every sequence of write-mode and append-mode conversions of compatible sources (distinct variable names, axes of the same name identical) into shared targets",
 "No test appends.",
 [N2NC, API], [("output mode", N2NC), ("dictionary conversion", API)],
 ["NetCDF content after each convertNAToNC()/writeNADictToNC()"])

prop("P22", "Dates and time axes denote the same instants after conversion",
 "A NASA Ames file made from a NetCDF file with a time axis states, for every supported calendar and unit, the numeric times and time units of the source, and, when the time axis is its leading one, its start date is the calendar date of the first time value; otherwise its start date is the one stated by the source, if any, and its revision date is the day it is made. The start and revision dates of a NASA Ames file are kept in the NetCDF attributes, and supplied time units are attached to a time axis whose own units are not recognised and only then.",
 ["inputs"], "every time unit, reference date, calendar and first value, and the time axis in any dimension position and under any name",
 "The cached files use one or two calendars with the time axis first.",
 [COL, XU, N2X], [("start date from first time value", COL), ("decoding and encoding of times", XU), ("time units check", N2X)],
 ["DATE, X, XNAME of converted files", "time units in NetCDF output"])

prop("P23", "The command line does exactly what its options say",
 "Each command-line converter, given any combination of its documented options, does what the corresponding library call with the corresponding arguments does: the same files with the same content, with documented default names, a zero exit status on success and, for the two commands that read NetCDF, a listing of the files written. Options that are not documented are refused and nothing is written.",
 ["configurations"], "every combination of documented options of the three commands",
 "No test runs a command.",
 ["nappy/script/na2nc.py", "nappy/script/nc2na.py", "nappy/script/nc2csv.py", API], [("option parsing", "nappy/script/*.py")],
 ["files written and text printed by the commands"])

prop("P24", "Global attributes of NetCDF reach the NASA Ames header intact",
 "Converting NetCDF to NASA Ames puts the title, source and institution (or the recorded originator and organisation) in the header items they map to, (values configured locally come first, and the organisation always does), and records every other text attribute, comment and singleton variable, and the attributes of the primary variables, in the comments, each complete. No attribute value, whatever its text, number of lines or type, changes the layout of the header or the data.",
 ["inputs"], "every set of global and variable attributes, including multi-line text, empty text and names that coincide with header items",
 "The cached files have one set of well-behaved attributes.",
 [COL], [("global attribute mapping", COL), ("comment assembly", COL)],
 ["headers of files written by convertNCToNA()/convertXarrayObjectsToNA()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
