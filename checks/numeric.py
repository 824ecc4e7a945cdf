"""The checks of the numeric engine: an obligation per access, decided by a
relational abstract interpretation of the normalised IR."""
import re
from collections import Counter
from . import check
from lib.core import Broken

FORMATS = ["l64", "l32", "b64", "b32"]
WHOLE = ["src/exceptions.cpp", "src/types.cpp", "src/encodings.cpp"]
TRUSTED = ["clang 18 front end and the LLVM 18 transformations used to normalise the IR",
           "tool/norm.cpp: the model of the library calls (allocation, string, stream and formatting functions)",
           "tool/instr.cpp: the fat pointers", "tool/prove.cpp and lp.h: the inference of the invariants and the exact simplex"]
ASSUME = ["objects are at most 2^63-1 bytes long", "a loop runs less than 2^62 times",
          "operator new either returns a block of the size asked for or throws",
          "the standard library and fmt behave as documented and are not analysed themselves"]


def describe(o):
    if o["what"] == "terminate":
        return "%s: a noexcept function lets an exception out, which terminates the process" % o["loc"]
    return "%s: a %s is not shown to stay within its object (%s)" % (o["loc"], o["what"], squeeze(o["detail"]))


def squeeze(s, n=300):
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= n else s[:n] + "..."


def selftest(ctx, bad=(), good=(), probe="selftest"):
    """The engine must report the bad examples, and prove the good ones, on every run."""
    bc = ctx.probe(probe)
    r = ctx.bounds(["vfp_" + x for x in list(bad) + list(good)], [bc])
    for x in bad:
        if all(o["ok"] for o in r["vfp_" + x]["obligations"]):
            raise Broken("the analyser does not report the bad example %s" % x)
    for x in good:
        if not r["vfp_" + x]["obligations"] or not all(o["ok"] for o in r["vfp_" + x]["obligations"]):
            raise Broken("the analyser does not prove the good example %s" % x)
    return {"reported": list(bad), "proved": list(good)}


def summarise(ctx, res, sel, st, extra=None):
    obs = [o for r in res.values() for o in r["obligations"] if sel(o)]
    fns = set(f for r in res.values() for f in r["functions"])
    own = sorted(f for f in fns if "cppsas7bdat" in f.split("(")[0])
    ctx.coverage.update({
        "obligations": len(obs), "discharged": sum(o["ok"] for o in obs),
        "checker_cmd": "build/vf --entry <entry> --mode bounds", "trusted_base": TRUSTED,
        "entries": {e: {"obligations": sum(1 for o in r["obligations"] if sel(o)), "loops": r["loops"],
                        "invariants": r["invariants"], "functions": len(r["functions"]), "devirtualised": r["devirt"],
                        "unresolved_calls": len(r["unresolved"]), "linear_programs": r["lps"]} for e, r in res.items()},
        "functions_of_the_repository": len(own), "function_samples": own[:25],
        "kinds": dict(Counter(o["what"] for o in obs)),
        "samples": [{"what": o["what"], "loc": o["loc"], "obligation": squeeze(o["detail"], 160)} for o in obs[:6]],
        "selftest": st})
    if extra:
        ctx.coverage.update(extra)
    ctx.assumptions += ASSUME
    return obs


def report(ctx, res, sel, key=None):
    for e, r in res.items():
        for o in r["obligations"]:
            if sel(o) and not o["ok"]:
                k = key(e, o) if key else re.sub(r":\d+", "", o["loc"])
                ctx.violation(k, "[%s] %s" % (e[4:], describe(o)), path=o["chain"], entry=e)


def unresolved(ctx, res):
    for e, r in res.items():
        if r["unresolved"]:
            raise Broken("%s: calls through pointers that are not resolved: %s" % (e, r["unresolved"][:3]))


BAD = ["bad_read", "bad_loop", "bad_wrap", "bad_after_free_len"]
GOOD = ["good_loop", "good_guard"]


@check("C01")
def c01(ctx):
    """Decompression never reads outside its input nor writes outside the row."""
    st = selftest(ctx, BAD, GOOD)
    bcs = ctx.compile_all(WHOLE) + [ctx.probe("decompress")]
    es = ["vfp_%s_%s" % (d, f) for d in ("rle", "rdc") for f in FORMATS]
    res = ctx.bounds(es, bcs)
    sel = lambda o: not o["what"].startswith("assert")
    obs = summarise(ctx, res, sel, st)
    for e in es:
        ctx.floor("obligations in " + e, sum(1 for o in res[e]["obligations"] if sel(o)), 9)
        if not any(o["what"].startswith("read of a region") for o in res[e]["obligations"]):
            raise Broken(e + ": no read of the compressed bytes is seen")
        if not any(o["what"].startswith("write") for o in res[e]["obligations"]):
            raise Broken(e + ": no write of the row is seen")
    report(ctx, res, sel)
    return "proof"


def whole(ctx):
    bcs = ctx.compile_all(WHOLE) + [ctx.probe("whole")]
    es = ["vfp_%s_%s" % (f, d) for d in ("rle", "rdc", "none") for f in FORMATS]
    res = ctx.bounds(es, bcs)
    unresolved(ctx, res)
    return es, res


def is_row(o):
    return o["what"].startswith("use") or "of a region" in o["what"]


@check("C04")
def c04(ctx):
    """Header, pages and metadata are only read within the bytes fetched."""
    st = selftest(ctx, BAD, GOOD)
    es, res = whole(ctx)
    sel = lambda o: not is_row(o) and not o["what"].startswith("assert")
    summarise(ctx, res, sel, st)
    for e in es:
        n = [o for o in res[e]["obligations"] if sel(o)]
        ctx.floor("obligations in " + e, len(n), 100)
        ctx.floor("fills of a buffer in " + e, sum(o["what"].startswith("fill") for o in n), 2)
    report(ctx, res, sel)
    return "proof"


@check("C05")
def c05(ctx):
    """A row lies within its page, a column value within its row."""
    st = selftest(ctx, BAD, GOOD)
    es, res = whole(ctx)
    summarise(ctx, res, is_row, st)
    for e in es:
        n = [o for o in res[e]["obligations"] if is_row(o)]
        ctx.floor("reads of the bytes of a row in " + e, sum("of a region" in o["what"] for o in n), 15)
        ctx.floor("rows and values handed out in " + e, sum(o["what"].startswith("use") for o in n), 2)
    report(ctx, res, is_row)
    return "proof"


@check("C06")
def c06(ctx):
    """No file content terminates the process."""
    st = selftest(ctx, ["bad_noexcept"], ["good_noexcept"])
    es, res = whole(ctx)
    sel = lambda o: o["what"] == "terminate"
    raised = sum(r["throws"] for r in res.values())
    bad = sum(1 for r in res.values() for o in r["obligations"] if sel(o))
    failed = sum(1 for r in res.values() for o in r["obligations"] if sel(o) and not o["ok"])
    summarise(ctx, res, sel, st, {"exceptions_raised": {e: r["throws"] for e, r in res.items()}})
    ctx.coverage.update(obligations=raised + bad, discharged=raised + bad - failed,
                        rule="an exception raised at any of these sites, or by a call left opaque, reaches a handler of the "
                             "caller without crossing a function that promises not to raise")
    for e in es:
        ctx.floor("instructions raising an exception in " + e, res[e]["throws"], 20)
    report(ctx, res, sel)
    conversions(ctx)
    return "proof"


# 1400-01-01 to 9999-12-31 in days since 1960-01-01, plus or minus the rounding
FIRST, LAST = -204536, 2936550


def convertible(c):
    lo, hi = float(c["lo"]), float(c["hi"])
    if c["nan"]:
        return "NaN"
    if c["kind"] == "days" and not (FIRST <= lo and hi <= LAST):
        return "%s..%s days since 1960, outside of the years 1400..9999" % (c["lo"], c["hi"])
    if not (-9.2e18 < lo and hi < 9.2e18):
        return "%s..%s" % (c["lo"], c["hi"])
    return None


def conversions(ctx):
    bc = [ctx.probe("dates")] + ctx.compile_all(WHOLE)
    es = ["vfp_%s_%s" % (k, e) for k in ("datetime", "date", "time") for e in "lb"]
    st = ctx.bounds(["vfp_bad_convert", "vfp_good_convert"], bc, mode="convert")
    if not any(map(convertible, st["vfp_bad_convert"]["conversions"])):
        raise Broken("the interval analysis does not report the bad conversion")
    if not st["vfp_good_convert"]["conversions"] or any(map(convertible, st["vfp_good_convert"]["conversions"])):
        raise Broken("the interval analysis does not accept the good conversion")
    res = ctx.bounds(es, bc, mode="convert")
    n = 0
    for e in es:
        cs = res[e]["conversions"]
        if not cs:
            raise Broken("no conversion of a number to a date is seen in " + e)
        n += len(cs)
        for c in cs:
            w = convertible(c)
            if w:
                ctx.violation(re.sub(r":\d+", "", c["loc"]) + ":convert",
                              "[%s] %s: a number is converted to an integer or a date without excluding %s" % (e[4:], c["loc"], w), path=c["chain"])
    ctx.coverage["conversions"] = {"sites": n, "entries": es, "samples": res[es[0]]["conversions"][:4]}


ASSERTS = {
    1: "a byte of the compressed row is skipped or read twice", 2: "the compressed row is read after the row is completed",
    3: "more bytes are read than the command has", 4: "the bytes of the row are not written one after the other",
    5: "the end of the row is not completed with zeros", 6: "a command writes before all its bytes are read",
    7: "the command does not write what its code says (a constant, bytes of the source, a part of the row)",
    8: "the command does not write the value it designates", 9: "the command does not copy from the place it designates",
    10: "the command writes more bytes than it designates", 11: "a literal byte is not copied as it is",
    12: "a byte of the compressed row is not read on its own", 13: "more than a byte of the row is written at once",
    14: "a row is rejected in its control bits although bytes are left", 15: "a row is rejected at a literal byte although there is room for it",
    16: "a row is rejected in a command although bytes are left", 17: "a row is rejected although there is room for what the command writes",
    18: "a row is rejected although there is room and the pattern lies in the row", 20: "a row is returned in the middle of a command",
    22: "the row returned was not written entirely", 23: "the row returned does not have the declared length",
    24: "a row is completed with zeros before the end of the compressed row",
    25: "a row is completed with zeros although more than two bytes of the compressed row are left"}
COVER = {4, 22, 23}


def number(o):
    m = re.fullmatch(r"assert(\d+)", o["what"])
    return int(m.group(1)) if m else 0


def commands(ctx, which, least):
    st = selftest(ctx, ["bad_skip", "bad_twice"], ["good_copy"], "lockstep")
    bcs = ctx.compile_all(WHOLE) + [ctx.probe("commands")]
    es = ["vfp_%s_%s" % (d, f) for d in ("rle", "rdc") for f in FORMATS]
    res = ctx.bounds(es, bcs)
    unresolved(ctx, res)
    sel = lambda o: number(o) in which
    obs = summarise(ctx, res, sel, st)
    for e in es:
        seen = Counter(number(o) for o in res[e]["obligations"])
        for n, k in least.items():
            if n in which and (n != 11 or "rdc" in e):
                ctx.floor("obligations '%s' in %s" % (ASSERTS[n], e), seen[n], k)
    for e, r in res.items():
        for o in r["obligations"]:
            if sel(o) and not o["ok"]:
                n = number(o)
                key = "%s:%s" % (e[4:7], "tail" if n == 24 else n)
                ctx.violation(key, "[%s] %s: not shown to be impossible: %s" % (e[4:], o["loc"], ASSERTS[n]), path=o["chain"], entry=e)
    return obs


@check("C02")
def c02(ctx):
    """A decompressed row is written entirely, in order, and has the declared length."""
    commands(ctx, COVER, {4: 1, 22: 1, 23: 1})
    return "proof"


@check("C03")
def c03(ctx):
    """Each command of a compressed row writes what the format says."""
    commands(ctx, set(ASSERTS) - COVER, {1: 3, 6: 1, 7: 1, 8: 1, 10: 1, 16: 1, 17: 1, 20: 1})
    return "proof"
