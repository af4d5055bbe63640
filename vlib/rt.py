"""C07 to C11: the runtime crate, driven directly with arbitrary texts, positions and operation sequences."""
import os
from .core import *

E = Entry
COMMON = ["heap allocation never fails", "hash keys are fixed (any iteration order of the set of expected items is accepted)", "compiled with overflow checks at opt-level 1, once with and once without debug assertions"]
PROPS = {
    "C07": dict(
        quick=[E("c07_step", "one operation from an arbitrary valid state: any 32-bit current/farthest/end position, any status, any u8 data, any subset of 3 expected items", ["error", "success", "failure", "mark", "restore", "restore_from_failure", "extract", "unwrap", "Success", "Partial", "Failure", "discard", "next", "consume_prefix", "new", "into_state", "error twice", "round trip"]),
               E("c07_hist6", "all histories of 6 operations", ["history", "history failed"])],
        thorough=[E("c07_hist7", "all histories of 7 operations", ["history", "history failed"])],
        bounds="streams are arbitrary 32-bit positions; one operation from every valid state (whatever its status and data) plus every history of 6 (thorough: 7) operations; data of type u8/u16",
        assume=["into_result of a failed state that holds data (only reachable by assigning to the public fields) is left out"]),
    "C08": dict(
        quick=[E("c08_a", "texts of 0..4 bytes, 3 operations", ["next", "next at end", "prefix matched", "prefix refused"]), E("c08_prefix", "texts of 0..4 bytes, 2 operations, arbitrary prefixes of 0..3 bytes", ["prefix matched", "prefix refused"]),
               E("c08_all6", "full reading of texts of 0..6 bytes", ["all read"]), E("c08_long", "prefixes longer than the text", ["long"]),
               E("c08_far", "255 to 520 filler bytes before 2 arbitrary ones, prefixes of up to 521 bytes", ["far"])],
        thorough=[E("c08_deep", "texts of 0..5 bytes, 4 operations", ["next"]), E("c08_prefix_deep", "texts of 0..6 bytes, 3 operations, arbitrary prefixes of 0..4 bytes", ["prefix matched"]), E("c08_all9", "full reading of texts of 0..9 bytes", ["all read"])],
        bounds="every well-formed UTF-8 text of at most 6 bytes (operation sequences: 4 bytes, 3 operations; thorough 9, 6 and 4), every prefix of at most 3 (4) bytes; longer texts and prefixes (up to 521 bytes) only as filler around arbitrary bytes",
        assume=["compared streams share their text (as documented)"]),
    "C09": dict(
        quick=[E("c09_6", "every text of 0..6 bytes, every character boundary", ["located"]), E("c09_file4", "same over a file map, texts of 0..4 bytes", ["located in file"]), E("c09_digits", "9..100 filler lines/columns around 3 arbitrary bytes", ["digits"]),
               E("c09_far300", "about 255, 256 and 300 bytes of filler (5 kinds of lines) before 2 arbitrary bytes, StrStream and FileMapStream", ["far"]), E("c09_far65536", "65535 bytes of filler (lines or columns) before 1 arbitrary byte", ["far"]),
               E("c09_hist3", "texts of 0..3 bytes, 3 operations (next, prefixes with line ends, backtracking) with the location asked or not after each", ["history", "prefix matched"])],
        thorough=[E("c09_far70000", "1000, 65535 and 65536 bytes of filler (5 kinds) before 2 arbitrary bytes", ["far"]), E("c09_hist4", "texts of 0..4 bytes, 4 operations", ["history"]), E("c09_8", "every text of 0..8 bytes", ["located"]), E("c09_file6", "file map, texts of 0..6 bytes", ["located in file"])],
        bounds="every well-formed UTF-8 text of at most 6 (thorough 8) bytes and every position; longer texts only as filler lines or columns (up to 65536) around 1 to 3 arbitrary bytes; histories of 3 (4) operations on texts of at most 3 (4) bytes", assume=[]),
    "C10": dict(
        quick=[E("c10_snip4", "texts of 0..4 bytes, every position, every 64-bit length hint", ["snippet"]), E("c10_msg_short", "texts of 0..3 bytes, every position, 8 expected lists with duplicates, 4 result shapes", ["expectation", "Success shown", "Partial shown", "Failure shown"]),
               E("c10_msg_long", "0..10 filler characters around 4 arbitrary bytes: the message's own hint falls inside every kind of character", ["expectation", "Failure shown"]),
               E("c10_many", "4 to 40 expected items, some of them twice", ["many"])],
        thorough=[E("c10_snip6", "texts of 0..6 bytes", ["snippet"]), E("c10_snip8", "texts of 0..8 bytes", ["snippet"]), E("c10_msg_deep", "0..10 filler characters around 6 arbitrary bytes, every position, 4 shapes", ["expectation"])],
        bounds="snippets: every text of at most 4 (thorough 8) bytes, every position and every 64-bit hint; messages: texts of at most 3 arbitrary bytes, or 4 (6) arbitrary bytes inside filler of up to 12 bytes; at most 3 distinct expected items in every order, 4 to 40 of them as a set", assume=["the length hint of messages is 10 bytes"]),
    "C11": dict(
        quick=[E("c11_lines6", "texts of 0..6 bytes, any start position below 0xffff0000", ["registered", "untouched"]), E("c11_walk_a", "texts of 0..3 bytes, 3 operations", ["next", "prefix matched", "prefix refused"]), E("c11_walk_p", "texts of 0..3 bytes, 2 operations, arbitrary prefixes", ["prefix matched"]), E("c11_same_a", "texts of 0..4 bytes, 2 operations, against StrStream", ["same"])],
        thorough=[E("c11_lines8", "texts of 0..8 bytes", ["registered", "untouched"]), E("c11_walk_deep", "texts of 0..5 bytes, 4 operations", ["next"]), E("c11_same_deep", "texts of 0..5 bytes, 4 operations", ["same"])],
        bounds="every file content of at most 6 (thorough 8) bytes for the line table, 3 to 4 (5) for operation sequences of 3 (4) operations; every start position below 0xffff0000",
        assume=["the file map holds its source; start position plus length fits in 32 bits"]),
}


def main(prop):
    p = PROPS[prop]
    build_engine()
    builds = []
    for suffix, profile in (("", None), ("_nda", {"DEBUG_ASSERTIONS": "false"})):
        bc, exe, err = build_harness("h_rt", os.path.join(VERIF, "harness/rt"), profile=profile, suffix=suffix)
        if not bc:
            raise CheckError("the harness does not compile against /repo:\n" + err[-3000:])
        builds.append((suffix, bc, exe))
    log("built")
    c = Check(prop, "symbolic execution of oak_runtime's LLVM bitcode, z3", p["bounds"], COMMON + p["assume"])
    thorough = TIER == "thorough"
    es = p["quick"] + (p["thorough"] if thorough else [])
    dump = os.path.join(BUILD, "smt-" + prop)
    shutil.rmtree(dump, ignore_errors=True)
    for suffix, bc, exe in builds:
        # the second build, without debug assertions, runs the quick bounds only
        c.explore(bc, exe, p["quick"] if suffix else es, 3000 if thorough else 350, harness="rt", dump=dump, keep_fn=lambda f: "oak_runtime" in f, tag=" (no debug assertions)" if suffix else "")
    c.cross_check(dump, 400 if thorough else 60)
    shutil.rmtree(dump, ignore_errors=True)
    return c.finish()
