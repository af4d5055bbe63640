"""C12 to C16 and C18 to C20: the oak compiler itself, run symbolically on grammar texts."""
import os, re, shutil, subprocess
from .core import *

LIB = os.path.join(BUILD, "oaklib")
SHIM = r'''
#[allow(unused_macros)]
macro_rules! parse_macro_input {
  ($i:ident as $t:ty) => { match ::syn::parse2::<$t>($i) { Ok(x) => x, Err(e) => { ::proc_macro2::diag::syntax_error(); ::proc_macro2::diag::syntax_judge(e.span(), &e); return ::proc_macro2::TokenStream::from(e.to_compile_error()) } } };
  ($i:ident) => { match ::syn::parse2($i) { Ok(x) => x, Err(e) => { ::proc_macro2::diag::syntax_error(); ::proc_macro2::diag::syntax_judge(e.span(), &e); return ::proc_macro2::TokenStream::from(e.to_compile_error()) } } };
}
pub mod proc_macro { pub use ::proc_macro2::{TokenStream, TokenTree, Ident, Punct, Literal, Group, Delimiter, Spacing, Span}; pub use ::proc_macro2::diag::{Diagnostic, Level}; }
'''


def make_oaklib():
    """/repo's compiler crate as an ordinary library: same sources, the compiler's proc_macro interface replaced."""
    shutil.rmtree(LIB, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src/liboak"), os.path.join(LIB, "src"))
    p = os.path.join(LIB, "src/lib.rs")
    s = open(p).read()
    s = re.sub(r"(?m)^#!\[feature\([^)]*\)\]\s*$", "", s)
    s = re.sub(r"(?m)^\s*extern crate proc_macro;\s*$", "", s)
    s = re.sub(r"(?m)^\s*#\[proc_macro\]\s*$", "", s)
    s = re.sub(r"(?m)^\s*use syn::parse_macro_input;\s*$", "", s)
    m = re.search(r"(?m)^(?!\s*(//|#!|$))", s)
    s = s[:m.start()] + SHIM + s[m.start():]
    open(p, "w").write("#![allow(warnings)]\n" + s)
    for d, _, fs in os.walk(os.path.join(LIB, "src")):
        for f in fs:
            q = os.path.join(d, f)
            t = open(q).read()
            open(q, "w").write(re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", t))
    open(os.path.join(LIB, "Cargo.toml"), "w").write('''[package]
name = "oaklib"
version = "0.1.0"
edition = "2015"
[lib]
name = "oaklib"
path = "src/lib.rs"
[dependencies]
partial = "^0.2.3"
proc-macro2 = { version = "1.0", default-features = false }
syn = { version = "1.0", default-features = false, features = ["full", "extra-traits", "parsing", "printing", "derive", "clone-impls"] }
quote = { version = "1.0", default-features = false }
''')


# template -> number of parts (one entry each)
WF = [3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 4, 4, 3, 3, 3, 3, 5, 3, 3, 4, 5, 3, 3, 3, 4, 4, 5, 2]
TYPES = [4, 4, 4, 4, 4, 5, 3, 5, 4, 4, 6, 2, 2, 6, 6, 6, 6, 4, 10, 2]
NAMES = [3, 8, 2, 2, 6, 3, 6, 6, 2, 6]
SPLIT = [4, 8, 4, 4, 192, 12, 1, 48, 1, 16, 2, 1, 64, 1, 12, 1, 1, 2, 24]
CODE = [5, 3, 3, 2, 3, 3, 5, 2, 2, 3, 4, 3, 3, 6, 2, 3, 6, 8, 3]  # of which every part is dealt into SPLIT shares
TEXTS = [3, 3, 3, 4, 2, 5, 2, 8, 7, 4, 5, 2]
DIAGS = [3, 3, 3, 3, 3, 3, 3, 3, 6, 3, 2, 3, 5, 2, 6, 3]
DIAGS += [n for n in WF] + [0] * (34 - len(WF)) + TYPES  # templates 16.. are those of WF, 50.. those of TYPES
KINDS = 14
SYNTAX = 2


def write_entries():
    """harness/mid/src/entries.rs, for every tier"""
    names, out = [], []

    def add(n, call):
        names.append(n)
        out.append('#[no_mangle] pub extern "C" fn %s() { %s }' % (n, call))
    for p in (12, 13):
        for k, n in enumerate(WF):
            for i in range(n):
                add("c%d_%d_%d" % (p, k, i), "wf::run(%d, %d, %d)" % (p, k, i))
    for k, n in enumerate(TYPES):
        for i in range(n):
            add("c15_%d_%d" % (k, i), "types::run(%d, %d, true)" % (k, i))
            add("c15_%d_%dw" % (k, i), "types::run(%d, %d, false)" % (k, i))
    for i in range(9):
        add("c14_b%d" % i, "notation::class_run(%d)" % i)
        add("c14_p%d" % i, "notation::class_pattern(%d)" % i)
    for k, n in enumerate(NAMES):
        for i in range(n):
            add("c16_%d_%d" % (k, i), "names::run(%d, %d, true)" % (k, i))
            add("c16_%d_%dw" % (k, i), "names::run(%d, %d, false)" % (k, i))
    for k, n in enumerate(TEXTS):
        for i in range(n):
            add("c18_%d_%d" % (k, i), "notation::text_run(%d, %d)" % (k, i))
    for k, n in enumerate(CODE):
        for i in range(n * SPLIT[k]):
            add("c19_%d_%d" % (k, i), "codegen::run(%d, %d)" % (k, i))
    for k, n in enumerate(DIAGS):
        for i in range(n):
            add("c20_%d_%d" % (k, i), "diagnostics::run(%d, %d)" % (k, i))
    for k in range(SYNTAX):
        for i in range(3):
            add("c20_s%d_%d" % (k, i), "diagnostics::syntax_run(%d, %d)" % (k, i))
    for l in range(1, 6):
        for k in range(KINDS):
            for a in range(8):
                add("c18_t%d_%d%s" % (l, k, ["", "r", "t", "i", "p", "v", "y", "q"][a]), "notation::token_run(%d, Some(%d), %d)" % (l, k, a))
    out.append("entries!(%s);" % ", ".join(names))
    open(os.path.join(VERIF, "harness/mid/src/entries.rs"), "w").write("\n".join(out) + "\n")


def parts(p, spec, suffix=""):
    """{template: parts or None for all of them} -> entry names"""
    count = {"12": WF, "13": WF, "15": TYPES, "16": NAMES, "18": TEXTS, "20": DIAGS, "19": [n * m for n, m in zip(CODE, SPLIT)]}[p]
    return ["c%s_%d_%d%s" % (p, k, i, suffix) for k, which in spec for i in (which if which is not None else range(count[k]))]


def all_of(*ks):
    return [(k, None) for k in ks]


def tokens(l, ends):
    return ["c18_t%d_%d%s" % (l, k, a) for k in range(KINDS) for a in ends]


# the first share of every part
CODE_QUICK = parts("19", [(k, [i * SPLIT[k] for i in range(n)]) for k, n in enumerate(CODE)])
WF_WHAT = "21 families of grammar texts (1 to 4 rules, every pair or triple of operators on literals, the empty literal, `.`, classes and calls, choices and sequences of up to 3 elements, up to 3 nested operators, every order of calls)"
PROPS = {
    "C12": dict(
        quick=parts("12", [(12, [1, 3]), (15, [0, 1]), (11, [0, 3]), (6, [0]), (24, None), (13, None), (8, None), (7, [1, 2]), (9, [0, 2])] + all_of(0, 1, 2, 3, 4, 5, 14, 23, 25, 26, 27)),
        thorough=parts("12", all_of(28, 10, 12, 15, 11, 6, 7, 9, 16, 17, 18, 19, 20, 21, 22)),
        plain=parts("12", all_of(0, 1, 2, 3, 5, 8, 14, 26, 27)),
        need=["looping", "not looping"],
        bounds=WF_WHAT + "; thorough adds 8 larger families",
        assume=["external rules consume input when they succeed", "for grammars that cannot loop only the termination of the compiler is checked here (C13 decides their acceptance)", "ill-typed grammars are left out"]),
    "C13": dict(
        quick=parts("13", all_of(15, 12, 11, 10, 24, 13, 6, 8, 7, 9, 0, 1, 2, 3, 4, 5, 14, 23, 25, 26, 27)),
        thorough=parts("13", all_of(28, 16, 17, 18, 19, 20, 21, 22)),
        plain=parts("13", all_of(0, 1, 2, 3, 5, 8, 14, 26, 27)),
        need=["accepted", "rejected: never succeeds", "rejected: idle", "rejected: unreachable"],
        bounds=WF_WHAT + "; thorough adds 7 larger families",
        assume=["looping grammars are C12's", "ill-typed grammars are left out", "a flawed expression is reported once and then taken for a good one"]),
    "C14": dict(
        quick=["c14_b%d" % i for i in range(7)] + ["c14_p%d" % i for i in range(2, 7)],
        thorough=["c14_b7", "c14_b8", "c14_p7", "c14_p8"],
        plain=["c14_b%d" % i for i in range(6)] + ["c14_p%d" % i for i in range(2, 6)],
        need=["accepted", "rejected"],
        bounds="reading: every class text of at most 6 (thorough 8) UTF-8 bytes without `\"`, `\\` or a carriage return, and every text of at most 6 (8) characters among `-`, `\\`, `e acute` (escaped) and arbitrary letters; denotation on an arbitrary character; generated recognizers and parsers: 35 grammars at the edges of classes on every text of at most 4 (8) bytes",
        assume=[]),
    "C15": dict(
        quick=parts("15", [(8, [0, 1, 2]), (9, [1]), (2, None), (17, [0])], "w") + parts("15", [(13, [0, 5]), (14, [1, 4]), (15, [0, 3]), (12, None), (10, [0, 3, 4]), (3, [0, 1, 3]), (1, [0, 1, 3])] + all_of(11, 5, 9, 7, 6, 0, 2, 4, 8, 17, 18, 19)),
        thorough=parts("15", all_of(13, 14, 15, 10, 16)) + parts("15", all_of(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 17, 18, 19), "w"),
        plain=parts("15", all_of(2, 8, 9), "w"),
        need=["typed", "rejected", "rejected or cut"],
        bounds="19 families of grammar texts of 1 to 3 rules, in every order of declaration: sequences, choices, repetitions, options, predicates, spans, ranges, ascriptions, actions (with or without `box`, local or external), external rules, calls and recursion, nested up to 3 deep; the signatures are those of the compiler (some families: read from the generated code)",
        assume=["Rust types are compared by rustc, not by oak: choices whose branches differ only by the name of a Rust type are left out", "an ascription by a Rust type over a value oak has typed itself is left out", "choices on cycles without a common type may be refused or cut to unit",
                "flawed grammars (C12, C13) are left out"]),
    "C16": dict(
        quick=parts("16", [(0, [0, 1]), (1, None), (2, None), (3, None), (4, None), (6, None), (7, None), (8, None), (9, None)]) + parts("16", [(6, None), (3, None), (4, None), (7, [1]), (9, [4])], "w"),
        thorough=parts("16", all_of(0, 5)) + parts("16", all_of(2, 1, 9), "w"),
        plain=parts("16", all_of(6, 3, 4), "w"),
        need=["no rule", "duplicate rules", "duplicate functions", "distinct names"],
        bounds="grammars of up to 3 rules (thorough 5) whose names, and the names they call, are any of up to 8, in every order of declaration; up to 3 functions in any place; up to 2 other Rust items",
        assume=["names are drawn from fixed lists", "flawed or ill-typed grammars are left out"]),
    "C18": dict(
        quick=parts("18", [(0, None), (1, [0, 2]), (2, None), (3, None), (5, None), (6, None), (7, None), (8, None), (9, None), (10, None), (11, None)]) + tokens(4, ["", "r"]) + tokens(3, ["", "r", "t", "i", "p", "v", "y", "q"]) + tokens(2, ["", "r", "t", "i", "p", "v", "y", "q"]) + tokens(1, ["", "r"]),
        thorough=parts("18", all_of(1, 4)) + tokens(5, ["", "r"]) + tokens(4, ["t", "i", "p", "v", "y", "q"]),
        plain=parts("18", all_of(2, 7)),
        need=["well formed", "malformed"],
        bounds="every body of 1 to 4 (thorough 5) tokens of 14 kinds (any punctuation character, `..`, `...`, identifiers, `box`, literal, class, paths, groups), followed by nothing, a rule, a typed rule or a Rust item, or in parentheses, or (up to 3 tokens) as the body of a typed rule; 11 (12) families of longer texts with 15 kinds of Rust items and every spelling of literals",
        assume=["what Rust's own grammar of types and generic paths would read is left out (`outside` in reference.rs)"]),
    "C19": dict(
        quick=CODE_QUICK,
        thorough=parts("19", all_of(*range(len(CODE)))),
        plain=CODE_QUICK,
        need=["judged"],
        bounds="every accepted grammar of 19 families of grammar texts (thorough; quick: a share of the larger families, 1/2 to 1/192): what is bound before, inside and after choices, repetitions, options, predicates, spans, discarded values, actions, external rules and rules, nested up to 3 deep, with values that can and cannot be copied; 6 kinds of stream types; every generated function of them is read whole, on every path through it",
        assume=["what rustc checks is re-implemented for the constructs the compiler generates (scopes, moves, mutability, numbers and types of values, signatures); borrows, trait bounds other than those of the signature, and lifetimes are not", "a function that uses other constructs is not judged (the evidence counts them)",
                "the functions of actions are well typed, external rules exist, and no rule or function has a name of oak's own"]),
    "C20": dict(
        quick=parts("20", all_of(0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 15) + [(7, [0]), (8, [0, 3]), (14, [0, 4])] + all_of(16, 17, 20, 21, 30) + [(18, [0]), (23, [1]), (25, [0])] + all_of(50, 52, 54, 56, 57, 58, 59, 60, 61, 67, 68, 69) + [(53, [0]), (55, [4]), (62, [0]), (65, [4])]) + ["c20_s%d_%d" % (k, i) for k in range(SYNTAX) for i in range(3)],
        thorough=parts("20", all_of(*range(len(DIAGS)))),
        plain=parts("20", all_of(0, 1, 3, 4, 5, 6, 10, 11, 12, 13, 15)),
        need=["chain", "never succeeds", "idle", "loop", "unreachable", "left recursion", "duplicate rules", "duplicate functions", "mismatch", "recursive type", "attribute", "written out", "branch type", "unit action", "syntax"],
        bounds="every error and every warning on the grammars of 16 families of grammar texts of its own and of 22 (thorough 49) of those of C12, C13 and C15, and the syntax errors of 2 families of malformed texts; the equivalences of the warnings on every ASCII text of at most 3 bytes",
        assume=["messages of other kinds than those of the property (and syntax errors that name no rule) are not judged", "after an infinite loop or a left recursion, what the compiler says about successes and consumption is not judged", "where: the smallest expression around the span, or its rule, branch, function or attribute"]),
}


def describe(exe):
    def d(entry, v):
        try:
            r = subprocess.run([exe], input="1 %s %s\n" % (entry, " ".join(str(x) for x in v["trace"])), capture_output=True, text=True, errors="replace", timeout=30, env=dict(os.environ, SYM_STDERR="1"))
            m = re.search(r"(?s)input: (.*?)\n", r.stderr)
            return "grammar `%s`" % m.group(1).strip() if m else ""
        except Exception:
            return ""
    return d


def main(prop):
    p = PROPS[prop]
    build_engine()
    make_oaklib()
    d = os.path.join(VERIF, "harness/mid")
    # C20 needs positions in the text, which cost time
    spans, suffix = (["spans"], "-spans") if prop == "C20" else ([], "")
    bc, exe, err = build_harness("h_mid", d, features=["--features", ",".join(spans)] if spans else [], suffix=suffix)
    plain = False
    if not bc:
        # the compiler's own data structures changed: only what goes through the whole compiler is left
        plain = True
        log("without the internals: " + err[-800:])
        bc, exe, err = build_harness("h_mid", d, features=["--no-default-features"] + (["--features", ",".join(spans)] if spans else []), suffix=suffix)
    if not bc:
        raise CheckError("the harness does not compile against /repo:\n" + err[-3000:])
    log("built")
    thorough = TIER == "thorough"
    names = p["plain"] if plain else p["quick"] + ([n for n in p["thorough"] if n not in p["quick"]] if thorough else [])
    c = Check(prop, "symbolic execution of the oak compiler's LLVM bitcode, z3", p["bounds"] + ("; REDUCED: the compiler's data structures changed, only the whole compiler is run" if plain else ""),
              ["heap allocation never fails", "hash keys are fixed", "the compiler's proc_macro interface (spans, diagnostics) is replaced by a stand-in", "grammar texts are templates with symbolic slots; texts outside of them are not covered", "the harness is compiled with debug assertions and overflow checks, opt-level 1"] + p["assume"])
    es = [Entry(n, "", ["-"], limit=400000000, max_viol=2) for n in names]
    dump = os.path.join(BUILD, "smt-" + prop)
    shutil.rmtree(dump, ignore_errors=True)
    c.explore(bc, exe, es, 6000 if thorough else 500, harness="mid", dump=dump, keep_fn=lambda f: "oaklib" in f, describe=describe(exe), timeout=30)
    for n in p["need"]:
        if not c.reach.get(n) and not c.violations and not plain:
            c.errors.append("vacuous: `%s` never reached" % n)
    c.cross_check(dump, 300 if thorough else 40)
    shutil.rmtree(dump, ignore_errors=True)
    if prop == "C14":
        from . import gen
        gen.explore(c, prop, gen.build(prop))
    return c.finish()
