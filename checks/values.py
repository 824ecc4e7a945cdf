"""The checks deciding that two values computed by the code are equal, by
comparing their normal forms over a model of the memory (tool/same.cpp)."""
import os
import re
from . import check
from .numeric import squeeze
from lib.core import Broken, REPO, VERIF

WHOLE = ["src/exceptions.cpp", "src/types.cpp", "src/encodings.cpp", "src/column.cpp"]
TRUSTED = ["clang 18 front end and the LLVM 18 transformations used to normalise the IR",
           "tool/norm.cpp: the model of the library calls", "tool/same.cpp: the rewriting of the values to normal forms"]
ASSUME = ["the standard library, boost and fmt are functions of their arguments; their results are not interpreted",
          "a value and its reference are compared on the runs on which the code raises no exception, unless said otherwise"]


def num(o):
    return int(re.sub(r"\D", "", o["what"]) or 0)


def selftest(ctx):
    bc = ctx.probe("same")
    bad = ["vfp_bad_offset", "vfp_bad_path", "vfp_bad_stale"]
    good = ["vfp_good_swap", "vfp_good_path"]
    r = ctx.bounds(bad + good, [bc], mode="same")
    for e in bad:
        if all(o["ok"] for o in r[e]["obligations"]):
            raise Broken("the analyser does not report the bad example " + e)
    for e in good:
        if not r[e]["obligations"] or not all(o["ok"] for o in r[e]["obligations"]):
            raise Broken("the analyser does not accept the good example " + e)
    return {"reported": bad, "accepted": good}


def equal(ctx, probe, entries, meaning, srcs=(), args=(), need=None, missing=None, allow=(), gone="what comes before it never ends normally", flags=()):
    """entries: the entries of the probe, or {entry: extra arguments}.
    need: {entry: ids that must be there}; missing: the violation when one is not,
    because the code before it is never completed"""
    st = selftest(ctx)
    bcs = [ctx.probe(probe, flags)] + ctx.compile_all(list(srcs))
    if not isinstance(entries, dict):
        entries = {e: list(args) for e in entries}
    res = {}
    for a in sorted(set(map(tuple, entries.values()))):
        res.update(ctx.bounds(["vfp_" + e for e in entries if tuple(entries[e]) == a], bcs, args=a, mode="same"))
    obs, fns, per = [], set(), {}
    for e in entries:
        r = res["vfp_" + e]
        for u in r["unresolved"]:
            if any(x in u for x in allow):
                continue
            if missing:
                ctx.violation("%s:%s" % (e, re.sub(r":\d+", "", u).split("/")[-1]), "[%s] %s: %s" % (e, u, missing), entry=e)
            else:  # such a call may do anything: what is shown holds whatever it does
                ctx.coverage.setdefault("calls_that_may_do_anything", []).append("%s: %s" % (e, u))
        fns |= set(r["functions"])
        os = [o for o in r["obligations"] if num(o) in meaning]
        have = set(map(num, os))
        for n in (need or {}).get(e, meaning if need is None else ()):
            if n not in have:
                ctx.violation("%s:%d:missing" % (e, n), "[%s] %s: not shown; %s" % (e, meaning[n], missing or gone), entry=e)
        per[e] = {"obligations": len(os), "functions": len(r["functions"]), "instructions": r.get("insts", 0)}
        obs += os
        for o in os:
            if not o["ok"]:
                ctx.violation("%s:%d" % (e, num(o)), "[%s] %s: not shown; %s%s" % (
                    e, meaning[num(o)], o["loc"], ", " + squeeze(o["detail"], 400) if o["detail"] else ""), path=o["chain"], entry=e)
    own = sorted(f for f in fns if "cppsas7bdat" in f.split("(")[0])
    c = ctx.coverage
    c["obligations"] = c.get("obligations", 0) + len(obs)
    c["discharged"] = c.get("discharged", 0) + sum(o["ok"] for o in obs)
    c.setdefault("entries", {}).update(per)
    c.update(checker_cmd="build/vf --entry <entry> --mode same", trusted_base=TRUSTED, selftest=st,
             rule="the two values have the same normal form: linear combinations, concatenations of bytes and decision "
                  "diagrams over the loads, resolved through the stores that precede them")
    c["functions_of_the_repository"] = c.get("functions_of_the_repository", 0) + len(own)
    c.setdefault("function_samples", own[:25])
    c.setdefault("samples", [{"what": meaning[num(o)], "loc": o["loc"]} for o in obs[:6]])
    for a in ASSUME:
        if a not in ctx.assumptions:
            ctx.assumptions.append(a)


HEADER = {
    1: "the header is read entirely, in its declared length", 2: "header_length", 3: "format (32 or 64 bits)", 4: "endianness",
    5: "platform", 6: "page_length", 7: "page_count", 8: "date_created", 9: "date_modified", 10: "dataset_name", 11: "file_type",
    12: "sas_release", 13: "sas_server_type", 14: "os_type", 15: "os_name", 16: "encoding",
    18: "the width and the byte order the rest of the file is read with",
    17: "a text of the header is without the blanks around it (a text of one byte)",
    20: "a file that starts with the magic number and has a header that is long enough is not refused"}


@check("C11")
def c11(ctx):
    """The properties of the header are those at the documented places of the file."""
    ws = ["%s%s%s" % (w, s, l) for w in "01" for s in "01" for l in "01"]
    fields = [n for n in HEADER if n < 17 or n == 18]
    es = {"header_" + w: ["--blank"] for w in ws}
    es.update({"accepted_" + w: ["--blank", "--no-oom"] for w in ws})
    need = {e: fields if e.startswith("header") else [20] for e in es}
    es["trimmed"], need["trimmed"] = [], [17]
    equal(ctx, "header", es, HEADER, WHOLE, need=need)
    return "proof"


VALUES = {
    1: "the type of the column", 2: "the length of the column", 3: "the integer value", 4: "the number of an integer",
    13: "a number on 3 bytes", 14: "a number on 4 bytes", 15: "a number on 5 bytes", 16: "a number on 6 bytes",
    17: "a number on 7 bytes", 18: "a number on 8 bytes", 30: "a text, without the spaces and zeros that follow it",
    40: "what is not a number is read as NaN", 41: "what is not an integer is read as 0", 42: "what is not a text is read as an empty one"}
DATES = {20: "the date and time of a datetime", 21: "the date of a datetime", 22: "the time of a datetime",
         23: "the value of a date", 24: "the value of a time", 25: "the number of a date, a time or a datetime"}


@check("C14")
def c14(ctx):
    """Numbers, integers and texts are those the bytes of the row represent."""
    need = {"small": [1, 2, 3, 4], "string": [1, 2, 30], "absent": [40, 41, 42]}
    for e in "lb":
        need["integer_" + e] = [1, 2, 3, 4]
        need["number_" + e] = [1, 2, 13, 14, 15, 16, 17]
        need["double_" + e] = [1, 2, 18]
    equal(ctx, "values", list(need), VALUES, WHOLE, need=need)
    return "proof"


@check("C26")
def c26(ctx):
    """Dates, times and datetimes count from 1960-01-01."""
    need = {}
    for e in "lb":
        need.update({"datetime_" + e: [20, 21, 22, 25], "date_" + e: [23, 25], "time_" + e: [24, 25], "lengths_" + e: [20, 21, 22, 23, 24, 25]})
    equal(ctx, "values", list(need), DATES, WHOLE, need=need)
    return "proof"


META = {
    1: "a subheader of metadata is not a row", 2: "row_length", 3: "row_count", 4: "col_count_p1", 5: "col_count_p2",
    6: "mix_page_row_count", 7: "lcs", 8: "lcp", 9: "column_count", 10: "one format and one label per subheader",
    11: "the format of a column, in the text it refers to", 12: "the label of a column, in the text it refers to",
    13: "the number of names", 14: "the name of a column, in the text it refers to", 15: "the number of columns described",
    16: "the offset of a column in the row", 17: "the length of a column", 18: "a column is numeric when its attribute is 1, a text otherwise",
    19: "one text per subheader", 20: "the text of a subheader", 21: "the type of the page", 22: "the number of blocks of the page",
    23: "the number of subheaders of the page", 24: "the subheaders that are empty or truncated, and only these, are skipped",
    25: "the offset of a subheader", 26: "the length of a subheader", 27: "the compression of a subheader", 28: "the type of a subheader",
    29: "pages of rows are those of type data and mix", 30: "pages with subheaders are those of type meta, mix and amd",
    31: "the subheaders that are compressed rows", 32: "compressed rows are kept, other subheaders are not",
    33: "the metadata end at the first page with compressed rows"}
COLUMNS = {
    1: "the type of a column", 2: "the length of a column", 3: "the place of the bytes of a text in the row", 4: "an integer at the offset of its column",
    5: "a number at the offset of its column", 6: "a date at the offset of its column", 7: "a column of unknown type has no value",
    8: "the type told by the format of the column", 10: "one column per column of the metadata", 11: "the name of a column",
    12: "the label of a column", 13: "the format of a column", 14: "the type of each column"}


@check("C12")
def c12(ctx):
    """The metadata and the columns are those of the subheaders of the file."""
    need = {"rowsize": range(1, 9), "colsize": [1, 9], "format": [10, 11, 12], "names0": [13], "names1": [13, 14], "names3": [13, 14],
            "attributes0": [15], "attributes1": range(15, 19), "attributes3": range(15, 19), "texts": [19, 20],
            "pointers": range(21, 29), "page_types": [29, 30], "rows": [31, 32], "stop": [33]}
    peel = {"page_types": 1, "rows": 0, "stop": 1}
    es, ids = {}, {}
    for k in need:
        for w in ("l64", "l32", "b64", "b32"):
            es["%s_%s" % (k, w)] = ["--blank", "--no-oom", "--peel", str(peel.get(k, 4))]
            ids["%s_%s" % (k, w)] = list(need[k])
    equal(ctx, "metadata", es, META, WHOLE, need=ids)
    need = {"text": [1, 2, 3], "integer_l": [1, 2, 4], "integer_b": [1, 2, 4], "none": [1, 7], "two": [10, 11, 12, 13, 14]}
    for n in range(10):
        need["formats%d" % n] = [8]
    for n in ("l3", "l4", "l5", "l6", "l7", "l8") + (("b3", "b4", "b5", "b6", "b7", "b8") if ctx.tier == "thorough" else ("b3", "b8")):
        need["number_" + n] = [1, 2, 5]
    for k, ns in ("datetime", ("l3", "l8", "b5")), ("date", ("l4", "l8", "b7")), ("time", ("l6", "l8", "b8")):
        for n in ns if ctx.tier != "thorough" else ["%s%d" % (e, n) for e in "lb" for n in range(3, 9)]:
            need["%s_%s" % (k, n)] = [1, 2, 6]
    one = ["--blank", "--no-oom", "--peel", "1", "--unroll", "-unroll-threshold=30000"]
    equal(ctx, "columns", {e: one if e != "two" else ["--blank", "--no-oom", "--peel", "2"] for e in need}, COLUMNS, WHOLE, need=need)
    return "proof"


FILTERS = {1: "AcceptAll accepts every column", 2: "Include accepts the names it contains, and no other",
           3: "Exclude accepts the names it does not contain, and no other",
           4: "IncludeExclude: the names included when there are some, otherwise those that are not excluded"}


@check("C15")
def c15(ctx):
    """The column filters, as a function of the membership of the name."""
    equal(ctx, "filters", ["all", "include", "exclude", "both"], FILTERS, WHOLE,
          need={"all": [1], "include": [2], "exclude": [3], "both": [4]})
    return "proof"


PROTOCOL = {
    1: "the sink gets the properties, once, before anything else", 2: "the index of the current row", 3: "read_row returns true when there was a row",
    4: "read_row gives the row to the sink, once, with its index", 5: "end_of_data is told when there are no more rows, and only then",
    6: "read_rows returns true when it read all the rows asked for", 7: "read_rows gives each row, once and in order", 8: "read_all gives each row, once and in order",
    9: "skip returns true when it skipped all the rows asked for", 10: "skip gives nothing to the sink, but the end", 11: "reading goes on after the rows skipped",
    12: "read_row_no_sink returns the rows, then null", 13: "read_row_no_sink gives nothing to the sink", 14: "a Reader does what its implementation does"}


@check("C09")
def c09(ctx):
    """What a reader delivers to its sink."""
    need = {"rows0": [1, 3, 5], "rows1": [1, 2, 3, 4, 5], "rows2": [1, 2, 3, 4, 5]}
    for e in "chunk00", "chunk01", "chunk11", "chunk23", "chunk33":
        need[e] = [1, 2, 6, 7]
    need.update(chunk10=[1, 2, 5, 6, 7], chunk42=[1, 2, 5, 6, 7], all0=[1, 2, 5, 8], all1=[1, 2, 5, 8], all3=[1, 2, 5, 8], skip00=[1, 2, 9, 10],
                skip22=[1, 2, 9, 10], skip10=[2, 9, 10], skip31=[2, 9, 10], skip13=[2, 3, 9, 10, 11], quiet0=[12, 13], quiet2=[2, 12, 13])
    for e in "row", "rows0", "rows1", "rows2", "all", "skip1", "skip2", "quiet":
        need["outer_" + e] = [1, 14]
    equal(ctx, "protocol", list(need), PROTOCOL, WHOLE + ["src/reader.cpp"], args=["--early", "--peel", "5", "--no-oom", "--no-unwind"], need=need)
    return "proof"


ROWS = {
    1: "the row k of a page is at its documented place", 2: "the index of the current row", 3: "the next row of the page is the one that follows",
    4: "there is no row after the last one", 5: "the first row of the next page that has rows follows the last one of the page",
    6: "there is no row when the file ends", 7: "a row that is skipped is not read again, and no other is skipped", 8: "no more rows are skipped than there are",
    9: "the rows of a page of compressed rows are its data subheaders, decompressed when they are shorter than a row"}


@check("C10")
def c10(ctx):
    """Each row of the file once, in order, at its place."""
    need = {"data": [1, 2, 3], "mix0": [1, 2, 3], "mix2": [1, 2, 3], "mix3": [1, 2, 3], "over": [4], "next1": [2, 5], "next_empty": [2, 5], "next_mix": [2, 5],
            "next_meta": [2, 5], "next_amd": [2, 5], "last": [6], "skip1": [2, 7], "skip3": [8], "packed3": [2, 9], "nth_short": [2, 9], "nth_full": [2, 9]}
    ids = {"%s_%s" % (k, w): need[k] for k in need for w in ("l64", "l32", "b64", "b32")}
    equal(ctx, "rows", list(ids), ROWS, WHOLE, args=["--early", "--fresh", "--peel", "1", "--no-oom", "--blank"], need=ids)
    return "proof"


CSV = {1: "the header is the quoted names of the columns, in their order, separated by commas",
       2: "a row is the value of each column, in their order, separated by commas, texts quoted",
       3: "each column is asked for its value of this row, once", 4: "a missing number is an empty value", 5: "everything goes to the stream of the sink",
       8: "the file of a sink that was moved is the one it has"}
PRINT = {3: CSV[3], 5: CSV[5], 6: "the properties and the columns, each under its name", 7: "a row is its index and the text of each column, in their order"}
SINKS = ["--no-oom", "--no-unwind", "--early", "--peel", "3", "--unroll", "-unroll-threshold=30000"]


@check("C25")
def c25(ctx):
    """What the CSV sink writes."""
    need = {"csv_" + t: [1, 2, 3, 5] for t in ("string", "number", "integer", "datetime", "date", "time", "two", "both")}
    need.update(csv_missing=[4, 5], csv_any=[4], moved=[8])
    equal(ctx, "sinks", list(need), CSV, WHOLE, args=SINKS, need=need)
    return "proof"


@check("C18")
def c18(ctx):
    """What the print sink writes."""
    equal(ctx, "sinks", ["print_none", "print_title", "print_titles", "print_row", "print_types"], PRINT, WHOLE, args=SINKS,
          need={"print_none": [5, 6], "print_title": [5, 6], "print_titles": [5, 6], "print_row": [3, 5, 7], "print_types": [3, 5, 7]})
    return "proof"


PYTHON = {
    1: "the properties are given to the object, before the rows", 2: "push_row is called once for each row, with its index",
    3: "a row has the value of each column, in their order", 4: "push_rows is called when a chunk is full, and at the end for the rows that are left",
    5: "a chunk comes with the index of its first and of its last row", 6: "a chunk has, for each column, its values in all the rows of the chunk, in their order",
    7: "set_data is called once, at the end, with all the rows", 8: "the object is referenced once while the sink lives, and never after",
    9: "the attribute _cpp is the sink", 10: "the attribute _cpp is removed at the end of the data, or with the sink", 11: "a date or a time has the fields of the one read",
    12: "the reference to a value is owned", 13: "a missing date or time is None"}
BINDING = ["-I" + os.path.join(VERIF, "probes/stub"), "-I" + os.path.join(REPO, "python/pycppsas7bdat/cpp")]
PY_SINKS = SINKS + ["--vectors"]
TYPES = "string", "number", "integer", "datetime", "date", "time"


@check("C13")
def c13(ctx):
    """The rows given to Python, and their dates."""
    need = {"row_" + t: [1, 2, 3] for t in TYPES + ("unknown", "two")}
    equal(ctx, "python", list(need), PYTHON, WHOLE, args=PY_SINKS, need=need, flags=BINDING)
    need = {"datetime": [11], "date": [11], "time": [11], "no_datetime": [13], "no_date": [13], "no_time": [13]}
    equal(ctx, "python_dates", list(need), {k: PYTHON[k] for k in (11, 13)}, WHOLE, args=PY_SINKS, need=need, flags=BINDING)
    return "proof"


@check("C24")
def c24(ctx):
    """The chunks and the whole data given to Python."""
    need = {"chunk_" + t: [1, 4, 5, 6] for t in TYPES + ("one", "exact", "two", "texts")}
    need.update({"data_" + t: [1, 7] for t in TYPES + ("two",)}, chunk_none=[1, 4])
    equal(ctx, "python", list(need), PYTHON, WHOLE, args=PY_SINKS, need=need, flags=BINDING)
    return "proof"


@check("C19")
def c19(ctx):
    """The references to Python objects."""
    need = {"owned_" + s: [8] for s in ("row", "chunk", "data")}
    need.update({"attribute_" + s: [8, 9, 10] for s in ("row", "end", "chunk", "data")})
    equal(ctx, "python_refs", list(need), PYTHON, WHOLE, args=PY_SINKS, need=need, flags=BINDING)
    dates = {e: [12] for e in ("datetime", "date", "time", "no_datetime", "no_date", "no_time")}
    equal(ctx, "python_dates", list(dates), {12: PYTHON[12]}, WHOLE, args=PY_SINKS, need=dates, flags=BINDING)
    return "proof"


EMPTY = {1: "read_row returns false", 2: "read_rows returns false", 3: "skip returns false", 4: "read_row_no_sink returns null",
         5: "current_row_index is 0", 6: "read_all returns", 7: "end_of_data returns", 8: "the properties are empty"}


@check("C16")
def c16(ctx):
    """A reader without a file, default constructed or moved from, is empty and safe."""
    es = ["default", "moved", "assigned"]
    equal(ctx, "reader", es, EMPTY, WHOLE + ["src/reader.cpp"], args=["--no-unwind"], need={e: list(EMPTY) for e in es},
          missing="the implementation the reader does not have is used", allow=["(~Reader)", "operator="])
    return "proof"
