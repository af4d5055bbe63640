"""C01-C06 and C17: parsers generated by the real oak! macro, run on symbolic texts against the reference semantics."""
import os, re
from .core import *
from . import family, peg

E = Entry
GEN = os.path.join(VERIF, "harness/gen")


def load():
    """[(kind, stream, text, G)]; stream: "" (StrStream), "fm" (FileMapStream), "cs"/"cg" (a stream of the user's)"""
    out, nth = [], {}
    for k in ("BASIC", "TYPED", "ACTIONS", "SPANS", "EXTERNAL", "WIDE", "REAL", "RANDOM", "CLASSES") + (("RANDOM2",) if TIER == "thorough" else ()):
        for l in getattr(family, k, "").strip().split("\n"):
            if not l.strip():
                continue
            d, l = l.split(" ", 1) if l[0] == "@" else ("", l)
            g = peg.G(l)
            g.mode = d[1:] if d[1:2] in ("w", "a") else ""
            out.append((k, d[1:] if d in ("@fm", "@cs", "@cg") else "", l, g))
            # some of them also over a stream of the user's
            nth[k] = nth.get(k, 0) + 1
            if k in ("BASIC", "TYPED", "SPANS", "ACTIONS") and not d and nth[k] % 3 == 0 and "sp" not in g.uses:
                out.append((k, "cg" if nth[k] % 2 else "cs", l, g))
    return out


def wants(prop, kind, fm, g):
    if prop == "C14" or kind == "CLASSES":
        return prop == "C14" and kind == "CLASSES"
    ext = "name" in g.uses and "E::Ext" in "".join(g.trees)
    if prop == "C17":
        return ext
    if ext:
        return False
    if fm == "fm" and prop not in ("C05", "C01"):
        return False
    has_act, has_sp = "act" in g.uses, "sp" in g.uses or "rg" in g.uses
    if prop == "C04":
        return has_act
    if prop == "C05":
        return has_sp and g.typed()
    if prop == "C03":
        return g.typed() and fm != "fm" and (kind not in ("BASIC", "EXTERNAL"))
    return True


def alphabet(text, most=6):
    cs = []
    def walk(e):
        if e[0] == "lit":
            cs.extend(e[1])
        elif e[0] == "cls":
            for a, b in e[1]:
                cs.extend([a, b])
        elif e[0] in ("seq", "cho"):
            for x in e[1]:
                walk(x)
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    walk(x)
    for _, e in peg.P(text).grammar():
        walk(e)
    cs = sorted(set(c for c in cs if ord(c) < 128))
    cs = cs[:most]
    for c in "zyw":
        if c not in cs:
            cs.append(c)
            break
    return cs


def module(i, text, fm, g):
    st = {"": "", "fm": "  type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>;\n", "cs": "  type Stream<'a> = super::Cs<'a>;\n",
          "cg": "  pub type Stream<'a, K> where K: super::Kind = super::Cg<'a, K>;\n"}[fm]
    return ("use super::*; use oak::oak;\noak! {\n%s  %s\n%s\n}\npub static T: [E; %d] = [%s];\n"
            % (st, text, g.functions(), len(g.trees), ", ".join(g.trees)))


def entry(prop, i, fm, g, mode, n, alpha, every=False):
    name = "g%d_%s" % (i, mode)
    if fm in ("cs", "cg"):
        inp = "chars(%d)" % n
    elif mode.startswith("u"):
        inp = "sym::text(0, %d)" % n
    elif mode[0] == "w":
        inp = "wide(%d, &[%s])" % (n, ", ".join(str(ord(c)) for c in alpha))
    elif mode[0] == "m":
        inp = "middle(%d, &[%s], %s)" % (n, ", ".join(str(ord(c)) for c in alpha), "true" if every else "false")
    elif prop == "C17":
        inp = "xtext(%d)" % n
    else:
        inp = "alpha(%d, &[%s])" % (n, ", ".join(str(ord(c)) for c in alpha))
    return name, "#[no_mangle] pub extern \"C\" fn %s() { let t = %s; %s!(t, g%d%s) }" % (name, inp, prop.lower() + fm.replace("cg", "cs"), i, ", typed" if g.typed() else ", unit")


CARGO = '''[package]
name = "%s"
version = "0.1.0"
edition = "2015"
[dependencies]
oak = { path = "/repo" }
oak_runtime = { path = "/repo/runtime" }
syntex_pos = "0.58.1"
[[bin]]
name = "%s"
path = "src/main.rs"
[profile.release]
lto = "fat"
codegen-units = 1
panic = "abort"
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
[profile.release.build-override]
opt-level = 0
debug-assertions = true
overflow-checks = true
[workspace]
'''

MODES = {"quick": [("u3", 3), ("a6", 6), ("m4", 4)], "thorough": [("u5", 5), ("a8", 8), ("m6", 6)]}
MODES14 = {"quick": [("u4", 4)], "thorough": [("u8", 8)]}
MODES17 = {"quick": [("x4", 4)], "thorough": [("x5", 5)]}


def write_crate(prop, fam, tier, skip):
    name = "h_gen_" + prop.lower()
    d = os.path.join(BUILD, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write(CARGO % (name, name))
    names, body, mods = [], [], []
    for i, (kind, fm, text, g) in enumerate(fam):
        if i in skip or not wants(prop, kind, fm, g):
            continue
        open(d + "/src/g%d.rs" % i, "w").write(module(i, text, fm, g))
        mods.append("mod g%d;" % i)
        alpha = alphabet(text, 99 if kind in ("WIDE", "REAL") else 6)
        modes = MODES17 if prop == "C17" else MODES14 if prop == "C14" else MODES
        ms = modes["quick"] + (modes["thorough"] if tier == "thorough" else [])
        if fm in ("cs", "cg"):
            ms = [("c4", 4)] + ([("c6", 6)] if tier == "thorough" else [])
        if g.mode[:1] == "w":
            ms = ms + [(g.mode, int(g.mode[1:]))]
        uni = any(ord(c) > 127 for c in peg_unescaped(text))
        for m, n in ms:
            if (uni and m[0] in "am" and prop != "C14") or (m[0] == "m" and fm):
                continue
            if m[0] == "u" and (uni or fm == "fm") and prop != "C14":
                n = n + 1
            if m in ("a6", "x4") and g.mode[:1] == "a":
                n = int(g.mode[1:])
            if m[0] == "m" and tier == "quick":
                if prop in ("C03", "C04"):
                    continue
                if prop in ("C02", "C06"):
                    n = 3
            nm, code = entry(prop, i, fm, g, m, n, alpha, prop in ("C02", "C06") and (tier == "thorough" or kind[:6] != "RANDOM"))
            names.append((nm, i, m, n))
            body.append(code)
    inc = open(GEN + "/peg.rs").read()
    main = open(GEN + "/main.rs").read().replace("@@PEG@@", os.path.join(GEN, "peg.rs")).replace("@@SYM@@", os.path.join(VERIF, "harness/common/symrt.rs"))
    main = main.replace("@@MODS@@", "\n".join(mods)).replace("@@ENTRIES@@", "\n".join(body)).replace("@@NAMES@@", ", ".join(n for n, _, _, _ in names))
    open(d + "/src/main.rs", "w").write(main)
    return name, d, names


def peg_unescaped(text):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), text)


INFO = {
    "C01": ("recognizers against the reference semantics: outcome and end position", ["matched", "refused"]),
    "C02": ("parse_ against recognize_: outcome, end position, farthest failure, expected items", ["both succeed", "both fail"]),
    "C03": ("value of parse_ against the reference value", ["value"]),
    "C04": ("value of parse_ and the calls received by the actions, in order, for parse_ and recognize_", ["value", "recognized"]),
    "C05": ("value of parse_, with every span and range, against the reference", ["value"]),
    "C06": ("farthest failure and expected items of recognize_ and parse_ against the reference", ["error information"]),
    "C14": ("recognizers and parsers of character classes, on every character, against the documented set of characters", ["matched", "refused", "value"]),
    "C17": ("calls received by external rules of arbitrary behaviour, outcome, value and error information", ["external"]),
}


def build(prop):
    fam = load()
    broken = {}
    for attempt in range(6):
        name, d, names = write_crate(prop, fam, "thorough" if TIER == "thorough" else "quick", broken)
        bc, exe, err = build_harness(name, d)
        if bc:
            break
        bad = {}
        for m in re.finditer(r"^error[^\n]*\n(?:[^\n]*\n)??\s*--> src/g(\d+)\.rs", err, re.M):
            bad.setdefault(int(m.group(1)), m.group(0)[:300])
        if not bad or len(bad) + len(broken) > len(fam) - 10:
            raise CheckError("the family does not compile against /repo:\n" + err[-3000:])
        broken.update(bad)
    else:
        raise CheckError("the family does not compile against /repo")
    log("built %d entries" % len(names))
    return fam, broken, names, bc, exe


def explore(c, prop, built):
    fam, broken, names, bc, exe = built
    what, need = INFO[prop]
    c.extra["compared"] = what
    c.extra["grammars"] = [{"id": "g%d" % i, "text": fam[i][2]} for i in sorted(set(i for _, i, _, _ in names))]
    for i, e in broken.items():
        c.add_static_violation("grammar does not compile any more: " + fam[i][2], e)
    es = [E(nm, "g%d: %s | %s %d" % (i, fam[i][2], m, n), [], limit=12000000, max_stack=4000, max_viol=2) for nm, i, m, n in names]
    es.sort(key=lambda e: "wacum".index(e.name[e.name.index("_") + 1]) if e.name[e.name.index("_") + 1] in "wacum" else 9)
    dump = os.path.join(BUILD, "smt-" + prop)
    shutil.rmtree(dump, ignore_errors=True)
    c.explore(bc, exe, es, 1500 if TIER == "thorough" else 200, harness="gen", dump=dump, keep_fn=lambda f: re.search(r"oak_runtime|::g\d+::|parse_|recognize_", f),
              describe=lambda e, v: "grammar `%s`" % fam[int(re.match(r"g(\d+)", e).group(1))][2])
    for n in need:
        if not c.reach.get(n) and not c.violations:
            c.errors.append("vacuous: `%s` never reached" % n)
    c.cross_check(dump, 300 if TIER == "thorough" else 60)
    shutil.rmtree(dump, ignore_errors=True)


def main(prop):
    build_engine()
    built = build(prop)
    ng = len(set(i for _, i, _, _ in built[2]))
    if TIER == "thorough":
        bounds = "%d grammars; every UTF-8 text of at most 5 (6 for non-ASCII grammars) bytes, and every text of at most 8 bytes over the grammar's own characters plus one" % ng
    else:
        bounds = "%d grammars; every UTF-8 text of at most 3 (4 for non-ASCII grammars) bytes, and every text of at most 6 bytes over the grammar's own characters plus one" % ng
    if prop == "C17":
        bounds = "%d grammars; every text of at most %d bytes over a, b and c, every behaviour of 3 external rules at every position (7 kinds, any 32-bit value)" % (ng, 5 if TIER == "thorough" else 4)
    c = Check(prop, "symbolic execution of oak!-generated parsers' LLVM bitcode, z3", bounds,
              ["heap allocation never fails", "grammars outside the pinned family are not covered", "the harness is compiled with debug assertions and overflow checks, opt-level 1"])
    explore(c, prop, built)
    return c.finish()
