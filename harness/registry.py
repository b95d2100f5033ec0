"""Property -> (module, function, technique, level note)."""
COMMON = (" Bound to the code by conformance only: nappy is driven through its public API and its "
          "recorded behaviour is judged by the specification with TLC; the harness's tokeniser, "
          "generators and Python itself are trusted.")
CHECKS = {
    "P01": ("p_format", "p01", "TLA+ handle/store machine (NAHandle.tla), TLC trace checking of write/read programs",
            "Random data sets of all nine indices and number formats within small dimensions."),
    "P02": ("p_format", "p02", "TLA+ reader machine of the nine layouts (NAFormat.tla), TLC decoding of written files",
            "Random data sets of all nine indices and every small one of the layout model; each file is decoded by the specification, not by nappy's reader."),
    "P03": ("p_format", "p03", "TLA+ reader machine of the nine layouts (NAFormat.tla), TLC trace checking of nappy's reader on generated layouts",
            "Every small data set of the layout model with every way of breaking its lines, and random data sets and layouts (wrapping, white space, annotations, ignored lines)."),
    "P04": ("p_format", "p04", "TLA+ reader machine (NAFormat.tla) as malformedness oracle, TLC judging of nappy on damaged files",
            "Every truncation of some files and random damage of many; a file is malformed exactly when the machine ends in an error."),
    "P05": ("p_handle", "p05", "TLA+ handle life-cycle machine (NAHandle.tla): TLC enumerates programs, replayed on nappy, logs checked by TLC",
            "All programs of a bounded length over two paths and three handles, plus TLC-simulated longer ones."),
    "P07": ("p_select", "p07", "TLA+ index choice model (FFISelect.tla), exhaustive structures from TLC replayed on chooseFFI, dispatch and written files judged by TLC",
            "Every structure with up to two marks, three rows and three auxiliary variables; random values."),
    "P08": ("p_format", "p08", "TLA+ presentation relation (Presentation.tla) and reader machine, TLC trace checking",
            "Random data sets, delimiters, formats and options."),
    "P15": ("p_compare", "p15", "TLA+ model of the comparison relation (Compare.tla; CompareMC checks it is reflexive, symmetric, monotone), TLC judging of nappy verdicts",
            "Random pairs of files in different formats and delimiters, equal or with one or two changes; one per cent decided in exact thousandths, borderline ratios left out."),
    "P16": ("p_meta", "p16", "TLA+ model of the metadata queries over the reader machine (Meta.tla), TLC judging of every query answer",
            "Random headers of all indices, name/units patterns with nested and unbalanced brackets, replaced patterns and callbacks."),
    "P09": ("p_nc", "p09", "TLA+ grouping machine of gridded sources (NCToNA.tla) over the reader machine, TLC judging which variables the written files hold",
            "Every small source of the grouping model (up to three variables over two axes), and random sources of ranks 0 to 4, selections and exclusions, from NetCDF files and xarray objects."),
    "P10": ("p_nc", "p10", "TLA+ grouping machine and axis/value clauses (NCToNA.tla), TLC decoding of written files and explaining them as groups",
            "Random sources over numeric and time axes; each file must be the group of a leading variable of what remained."),
    "P11": ("p_nc", "p11", "TLA+ grouping machine with index feasibility (NCToNA.tla), TLC judging of files or refusals for requested indices",
            "Every small source of the grouping model with every index (a sample of them), and random sources of ranks 1 to 5 and every requested index, including regular subsets for FFI 1020."),
    "P22": ("p_nc", "p22", "TLA+ calendar arithmetic (Calendar.tla, model checked) and NCToNA.tla, TLC judging of times and start dates",
            "Random units, reference dates, calendars and first values; time axes in any position."),
    "P12": ("p_out", "p12", "TLA+ machine writing outputs in volumes (Volumes.tla; VolumesMC checks the partition exhaustively in small scope), TLC trace checking of the files written",
            "Random one-dimensional sources and limits with presentation options; the same conversion without a limit is the reference."),
    "P13": ("p_out", "p13", "TLA+ model of paths and output names (Names.tla over Volumes.tla; NamesMC enumerates every short path), exported names replayed, TLC judging of recorded conversions and directory contents",
            "Every path of up to seven characters over three letters for default names and names of two outputs; random paths, kinds of conversion and limits otherwise."),
    "P17": ("p_na2nc", "p17", "TLA+ model of the converted content (NAToNC.tla: names, exact decimal scaling, written-out axes) over the reader machine, TLC judging of NetCDF content and xarray objects",
            "Every small source of the naming model (a sample of them), and random files of the six convertible indices with decimal values and scale factors whose products are exact, and selections."),
    "P18": ("p_nc", "p18", "TLA+ models of both directions (NCToNA.tla, NAToNC.tla) over the reader machine, TLC judging of missing positions, missing values and valid values",
            "Random missing values (zero, fractional, single-precision, not-a-number, undeclared, packed), scale factors, dates and number formats."),
    "P20": ("p_na2nc", "p20", "TLA+ model of the converted content (NAToNC.tla: global attributes, renaming) over the reader machine, TLC judging of NetCDF content",
            "Random headers, renaming mappings and user attributes (text, multi-line text, numbers, lists, names that coincide with mapped ones)."),
    "P21": ("p_na2nc", "p21", "TLA+ history machine over the converted content (NAToNCTrace.tla: what each target must hold), TLC trace checking of recorded histories",
            "Every short history of the append model (a sample of them), and random histories of up to five conversions of up to four sources into one or two targets, in both modes, from files, dictionaries and converter objects."),
    "P19": ("p_na2nc", "p19", "TLA+ model of the way to NetCDF and back (NACycle.tla) over the reader machine, TLC judging of the file that comes back",
            "Random files of the five indices that come back as one file."),
    "P24": ("p_nc", "p24", "TLA+ model of where attributes go in the header (NCHeader.tla) over the grouping and reader machines, TLC judging of written files",
            "Random global and variable attributes: text of several lines, blank, with markers, quotes and carriage returns; numbers and lists; names that coincide with header items."),
    "P14": ("p_over", "p14", "TLA+ history machine of overrides (Overrides.tla over the reader machine), TLC judging of recorded histories of conversions",
            "Random histories of up to four conversions of up to two sources in fresh processes with different configurations; the same conversions without overrides in another process are the reference."),
    "P06": ("p_history", "p06", "TLA+ machine of processes whose operations are functions of their inputs (History.tla; HistoryMC checks which flaws the walks show), TLC trace checking of recorded histories of several processes",
            "Random worlds of data sets, files, handles, objects and arguments; walks over every ordered pair of twelve operations, in processes with different orders and hash seeds."),
    "P23": ("p_cli", "p23", "TLA+ machines of the three commands (CLI.tla), which give the library call an argument list means; the calls are replayed and TLC judges the recorded behaviour of the commands against them",
            "Random argument lists, documented and not, over random sources; in one process and as commands of their own."),
}
