"""An independent reader of the notation: text -> tree, documented typing, reference tree for harness/gen/peg.rs."""
import re


class Bad(Exception):
    pass


TOK = re.compile(r'\s*(?:("(?:\\.|[^"\\])*")|([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)|(\.\.\.|\.\.|[.\[\]()*+?!&/<>:=^]))')


def unescape(s):
    out, i = "", 0
    s = s[1:-1]
    while i < len(s):
        c = s[i]
        if c == "\\":
            d = s[i + 1]
            if d == "u":
                j = s.index("}", i)
                out += chr(int(s[i + 3:j], 16))
                i = j + 1
                continue
            if d == "x":
                out += chr(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out += {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(d, d)
            i += 2
        else:
            out += c
            i += 1
    return out


def escape_default(c):
    if c in "\t\r\n\\'\"":
        return {"\t": "\\t", "\r": "\\r", "\n": "\\n"}.get(c, "\\" + c)
    return c if " " <= c <= "~" else "\\u{%x}" % ord(c)


def intervals(s):
    if not s:
        raise Bad("empty class")
    cs, out, i = list(s), [], 0
    n = len(cs)
    while i < n:
        if cs[i] == "-":
            if i not in (0, n - 1):
                raise Bad("misplaced -")
            out.append(("-", "-"))
            i += 1
        elif i + 2 < n and cs[i + 1] == "-":
            out.append((cs[i], cs[i + 2]))
            i += 3
        else:
            out.append((cs[i], cs[i]))
            i += 1
    return out


def class_desc(iv):
    return '["' + "".join(escape_default(a) if a == b else escape_default(a) + "-" + escape_default(b) for a, b in iv) + '"]'


class P:
    """Recursive descent over the documented precedence."""

    def __init__(self, text):
        self.toks, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise Bad("cannot read: " + text[i:])
            self.toks.append(m.group(1) or m.group(2) or m.group(3))
            i = m.end()
            while i < len(text) and text[i].isspace():
                i += 1
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def eat(self, t):
        if self.peek() != t:
            raise Bad("expected %s at %r" % (t, self.toks[self.i:self.i + 5]))
        self.i += 1

    def isid(self, k=0):
        t = self.peek(k)
        return t is not None and (t[0].isalpha() or t[0] == "_")

    def grammar(self):
        rules = []
        while self.peek() is not None:
            name = self.next()
            ty = None
            if self.peek() == ":":
                self.next()
                ty = self.type()
            self.eat("=")
            e = self.choice()
            rules.append((name, ("asc", e, ty) if ty else e))
        return rules

    def type(self):
        if self.peek() == "(":
            self.next()
            if self.peek() == "^":
                self.next()
                self.eat(")")
                return "^"
            self.eat(")")
            return "()"
        t = self.next()
        if self.peek() == "<":
            self.next()
            t += "<" + self.type() + ">"
            self.eat(">")
        return t

    def choice(self):
        bs = [self.action()]
        while self.peek() == "/":
            self.next()
            bs.append(self.action())
        return bs[0] if len(bs) == 1 else ("cho", bs)

    def action(self):
        e = self.spanned()
        if self.peek() == ">":
            self.next()
            boxed = False
            if self.peek() == "box":
                self.next()
                boxed = True
            e = ("act", e, boxed, self.next())
        return e

    def spanned(self):
        if self.peek() in ("..", "..."):
            op = self.next()
            return ("sp" if op == ".." else "rg", self.sequence())
        return self.sequence()

    def starts(self):
        t = self.peek()
        if t is None or t in "/>)=:*+?":
            return False
        if self.isid():
            # a rule name starts the next rule
            if self.peek(1) == "=":
                return False
            if self.peek(1) == ":":
                k = 2
                if self.peek(k) == "(":
                    k += 3 if self.peek(k + 1) == "^" else 2
                else:
                    k += 1
                    while self.peek(k) in ("<", ">") or self.peek(k - 1) == "<":
                        k += 1
                return self.peek(k) != "="
            return True
        return t[0] in '".[(!&'

    def sequence(self):
        es = []
        while self.starts():
            es.append(self.ascribed())
        if not es:
            raise Bad("empty sequence at %r" % (self.toks[self.i:self.i + 5],))
        return es[0] if len(es) == 1 else ("seq", es)

    def ascribed(self):
        e = self.prefixed()
        if self.peek() == ":":
            self.next()
            e = ("asc", e, self.type())
        return e

    def prefixed(self):
        if self.peek() in ("!", "&"):
            op = self.next()
            return ("not" if op == "!" else "and", self.suffixed())
        return self.suffixed()

    def suffixed(self):
        e = self.atom()
        if self.peek() in ("*", "+", "?"):
            op = self.next()
            e = ({"*": "star", "+": "plus", "?": "opt"}[op], e)
        return e

    def atom(self):
        t = self.next()
        if t[0] == '"':
            return ("lit", unescape(t))
        if t == ".":
            return ("any",)
        if t == "[":
            s = unescape(self.next())
            self.eat("]")
            return ("cls", intervals(s))
        if t == "(":
            e = self.choice()
            self.eat(")")
            return e
        if t[0].isalpha() or t[0] == "_":
            return ("name", t)
        raise Bad("unexpected " + t)


def rs(s):
    """A Rust string literal."""
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


EXT = {"x::p": 0, "x::q": 1, "x::z": 2}
CONSTR = {"Ev::Zero": 900, "Ev::One": 901, "Ev::Two": 902, "Ev::Many": 903, "Ts": 910, "Ts::new": 910, "Ev::zero": 900, "Ev::one": 901, "Ev::two": 902, "Ev::sp": 904, "g::h::deep": 920, "Tw": 930, "Tw::new": 930, "Tu::new": 931, "g::h::new": 932}


RESULT = {"Ev::sp": "A", "g::h::deep": "A"}


class G:
    """Typing: a type is 'inv', 'unit', or a list of components (strings)."""

    def __init__(self, text):
        self.text = text
        self.rules = P(text).grammar()
        self.names = {n: i for i, (n, _) in enumerate(self.rules)}
        self.rty, self.stack, self.arity, self.uses = {}, [], {}, set()
        self.trees = [self.tr(e) for _, e in self.rules]
        for f in re.findall(r">\s*(?:box\s+)?(f\d+)", text):
            self.arity.setdefault(f, 0)

    def rule_ty(self, n):
        if n not in self.rty:
            if n in self.stack:
                return "rec"
            self.stack.append(n)
            t = self.ty(self.rules[self.names[n]][1])
            self.stack.pop()
            if t == "rec":
                t = "inv"
            self.rty[n] = t
        return self.rty[n]

    def ty(self, e):
        k = e[0]
        if k in ("lit", "not", "and"):
            return "inv"
        if k in ("any", "cls"):
            return ["char"]
        if k == "name":
            if e[1] in self.names:
                return self.rule_ty(e[1])
            if e[1] not in EXT:
                raise Bad("unknown rule " + e[1])
            return ["?"]
        if k in ("star", "plus", "opt"):
            t = self.ty(e[1])
            if t == "inv":
                return "inv"
            if t == "rec":
                raise Bad("polymorphic recursion")
            return [("Option<%s>" if k == "opt" else "Vec<%s>") % self.show(t)]
        if k == "asc":
            return {"^": "inv", "()": "unit"}.get(e[2]) or [e[2]]
        if k == "act":
            f = e[3]
            if f in RESULT:
                return ["Box<%s>" % RESULT[f] if e[2] else RESULT[f]]
            if "::" in f or f in CONSTR:
                return ["?"]
            return ["Box<A>" if e[2] else "A"]
        if k in ("sp", "seq"):
            ts = [self.ty(x) for x in (e[1] if k == "seq" else [e[1]])]
            comps = [] if k == "seq" else ["Span"]
            rec = False
            for t in ts:
                if t == "rec":
                    rec = True
                elif isinstance(t, list):
                    comps += t
            if rec:
                if comps:
                    raise Bad("polymorphic recursion")
                return "rec"
            if comps:
                return comps
            return "inv" if all(t == "inv" for t in ts) else "unit"
        if k == "rg":
            return ["Range"]
        if k == "cho":
            ts = [self.ty(x) for x in e[1]]
            nr = []
            for t in ts:
                if t != "rec" and t not in nr:
                    nr.append(t)
            if not nr:
                return "rec"
            if len(nr) == 1:
                return nr[0]
            if all(t in ("inv", "unit") for t in nr):
                return "inv"
            if len(nr) == 2 and ["?"] in nr:
                return nr[1 - nr.index(["?"])]
            raise Bad("branches of different types %r" % nr)
        raise Bad(k)

    @staticmethod
    def show(t):
        return "()" if t in ("unit", "inv") else t[0] if len(t) == 1 else "(" + ",".join(t) + ")"

    def tr(self, e, drop=False):
        """The reference tree. `drop`: the value is not used below."""
        k = e[0]
        self.uses.add(k)
        if not drop:
            t = self.ty(e)
            if t in ("inv", "unit", "rec"):
                return "E::Drop(&%s)" % self.tr(e, True)
        if k == "lit":
            return "E::Lit(%s)" % rs(e[1])
        if k == "any":
            return "E::Any"
        if k == "cls":
            return "E::Cls(&[%s], %s)" % (", ".join("(0x%x, 0x%x)" % (ord(a), ord(b)) for a, b in e[1]), rs(class_desc(e[1])))
        if k == "name":
            if e[1] in self.names:
                return "E::Nt(%d)" % self.names[e[1]]
            return "E::Ext(%d)" % EXT[e[1]]
        if k in ("seq", "cho"):
            return "E::%s(&[%s])" % (k.capitalize(), ", ".join(self.tr(x, drop) for x in e[1]))
        if k in ("star", "plus", "opt"):
            return "E::%s(&%s)" % (k.capitalize(), self.tr(e[1], drop))
        if k in ("not", "and"):
            return "E::%s(&%s)" % (k.capitalize(), self.tr(e[1], True))
        if k == "asc":
            return self.tr(e[1], drop)
        if k in ("sp", "rg"):
            if drop:
                return self.tr(e[1], True)
            return "E::%s(&%s)" % (k.capitalize(), self.tr(e[1], k == "rg"))
        if k == "act":
            if drop:
                return self.tr(e[1], True)
            t = self.ty(e[1])
            f = e[3]
            n = len(t) if isinstance(t, list) else 0
            if f not in CONSTR:
                if self.arity.setdefault(f, n) != n:
                    raise Bad("action %s used with %d and %d arguments" % (f, n, self.arity[f]))
            i = CONSTR[f] if f in CONSTR else int(f[1:])
            return "E::Act(%d, %s, %s, &%s)" % (i, "true" if e[2] else "false", "false" if f in CONSTR else "true", self.tr(e[1]))
        raise Bad(k)

    def functions(self):
        out = []
        for f, n in sorted(self.arity.items()):
            ps = ["a%d" % i for i in range(n)]
            gen = "<%s>" % ", ".join("T%d: ToVal" % i for i in range(n)) if n else ""
            out.append("  fn %s%s(%s) -> A { act(%s, vec![%s]) }" % (f, gen, ", ".join("%s: T%d" % (p, i) for i, p in enumerate(ps)), f[1:], ", ".join(p + ".v()" for p in ps)))
        return "\n".join(out)

    def typed(self):
        return isinstance(self.rule_ty(self.rules[0][0]), list)
