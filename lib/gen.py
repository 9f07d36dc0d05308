"""Seeded random queries.

A query is generated as a list of tokens; a token is a list of equivalent spellings
or a gap.  Rendering picks a spelling per token and a separator per gap, so one token
list gives many texts of the same query.  What a text means is never decided here:
that is the specification's job.
"""
import random

G0, G1 = "<g0>", "<g1>"

KEYS = {
    "and": ["and", "&&"], "or": ["or", "||"],
    "eq": ["=", "==", "eq"], "neq": ["!=", "<>", "neq"], "gt": [">", "gt"], "gte": [">=", "gte"],
    "lt": ["<", "lt"], "lte": ["<=", "lte"], "like": ["like"],
}
COMPARES = ["eq", "neq", "gt", "gte", "lt", "lte", "like", "not like"]
MATCHES = {
    "is null": [["isnull"], ["is", "null"]], "is not null": [["notnull"], ["is", "not", "null"]],
    "is true": [["is", "true"]], "is false": [["is", "false"]],
    "is not true": [["is", "not", "true"]], "is not false": [["is", "not", "false"]],
}
NAMES = ["a", "b", "c", "x", "y1", "name", "user_name", "createdAt", "ID", "A", "Z9_", "order", "android", "inner",
         "island", "likes", "dated", "between1", "isnull", "gte", "equals", "orders", "ands", "In", "LIKE_this", "eq",
         "x__y", "a1b2c3", "Is", "no", "nOr", "tru", "fals", "nul", "Null", "True_", "u", "i", "date", "has_edge",
         "and_", "oR9", "in_stock", "ltd", "gtin", "l", "n", "t", "f", "N", "T", "lte_x", "neqs", "likely", "betweens",
         "nowhere", "No", "n0t", "a_not", "veryLongIdentifierName_with_many_parts_0123456789_and_more"]
STRINGS = ["", "x", "abc", "O'Reilly", 'say "hi"', "a\\b", "\\", "\\'"[0:1] + "n", "\\n", "\n", "\r\n", "\t", " ", "  x  ",
           "--", "-- no comment\n", "// x", "/* y */", "?", "??", "$1", "@name", ":id", "%", "_", "%a_b%", "100%", ")",
           "(", "]", "[", ",", ";", "; drop table users", "x) or (1=1", "1 or 1=1", "null", "true", "0", "01", "1e5",
           "-1", "é", "日本語", "😀", "é", "\u0000", "�", "​", " ", "and", "a=b", "in (1)", "{}", "<b>",
           "&amp;", "%s", "%d", "%!v", "${x}", "`", "``", "a`b", "|| '1", "\x7f", "\U0010ffff", "ǅ", "İ", "ß", "K"]
# strings that look escaped, quoted twice, or like values of another type
STRINGS += ["''", "it''s", '""', 'a""b', "\\\\", "\\t", "\\u0041", "\\x41", "\\0", "&#39;", "%27", "a+b", "\r", "\v", "\f", "x\n", "\ufeffx",
            "\u2028", "e\u0301", "X", "ABC", "Abc", "2020-02-03", "2020-02-03T04:05:06Z", "2020-02-03 04:05:06", "04:05", "20200203",
            "123", "-5", "1.5", "1_000", "0x1F", "+1", " 1", "1 ", "TRUE", "FALSE", "NULL", "nil", "undefined", "NaN", "Infinity",
            "[1,2]", '{"a":1}', "(1,2)", "a,b", "a.b", "a->b", "550e8400-e29b-41d4-a716-446655440000", "x@y.z", "now()", "current_date",
            "*", "1; --", "/", "../x", "b64==", "a:b", "a&b", "<>"]
# punctuation, digits and blanks of other scripts
STRINGS += ["，（）：；、。！？", "“x” ‘y’", "「a」『b』【c】《d》", "\u3000x\u00a0", "\u2013 \u2014 \u2026", "１２３ ＝ ＜＞", "\u0661\u0662", "\u200bx\u200d",
            "\u202etxt", "ſKı", "ﬁ", "≠ ≤ ≥", "👩\u200d👧", "\u0085"]


def blocks(quote):
    """Strings that have all characters of the blocks for common scripts and signs, but the quote."""
    cps = [x for lo, hi in ((0x00, 0x590), (0x600, 0x700), (0x2000, 0x2c00), (0x3000, 0x3100), (0x4e00, 0x4e40), (0xac00, 0xac40), (0xd7c0, 0xd7ff),
                            (0xe000, 0xe010), (0xfb00, 0xfb50), (0xfe00, 0x10000), (0x10000, 0x10040), (0x1f300, 0x1f700)) for x in range(lo, hi)]
    cps = [chr(x) for x in cps if chr(x) != quote]
    return ["".join(cps[i:i + 48]) for i in range(0, len(cps), 48)]


def outside():
    """Characters for places outside of strings."""
    return [chr(x) for lo, hi in ((0x00, 0x300), (0x2000, 0x2070), (0x2200, 0x2270), (0x3000, 0x3040), (0xfe50, 0xfe70), (0xff00, 0x10000))
            for x in range(lo, hi)]


INTS = ["0", "1", "2", "3", "5", "7", "10", "42", "99", "100", "255", "256", "1000", "32767", "32768", "65535", "65536", "2147483647",
        "2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993",
        "9223372036854775806", "9223372036854775807"]
BIGINTS = ["9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616",
           "99999999999999999999", "92233720368547758070", "123456789012345678901234567890"]


def word_char(c):
    return c.isascii() and (c.isalnum() or c == "_")


class Rand(random.Random):
    def chance(self, p):
        return self.random() < p


def rand_case(r, w):
    return "".join(c.upper() if r.chance(0.5) else c for c in w)


GAPS = [" ", " ", " ", "  ", "\t", "\n", "\r\n", "\r", " \n ", "--c\n", "//c\n", "-- a b'c\n", "//\n", "--\r\n", " -- x\r",
        "--(\n", "// ) \"\n \t", "------\n", "// -- //\n", "--é\n", "--a and b\n//x\n", "     \t\t   "]


def gap(r, wild):
    if not wild:
        return " "
    if r.chance(0.7):
        return r.choice([" ", " ", "  ", "\t", "\n"])
    g = r.choice(GAPS)
    if r.chance(0.1):
        g += r.choice(GAPS)
    return g


def render(r, toks, wild=True, tight=0.4):
    """One text of the query.  wild: use all kinds of separators, cases and spellings;
    tight: how often a gap that may be empty is."""
    out = ""
    pend = None
    for t in toks:
        if t in (G0, G1):
            if pend != G1:
                pend = t
            continue
        s = r.choice(t) if wild else t[0]
        if callable(s):
            s = s(r, wild)
        if not s:
            continue
        need = pend == G1 or (out and pend == G0 and word_char(out[-1]) and word_char(s[0]))
        if need:
            out += gap(r, wild)
        elif pend == G0 and out is not None and not r.chance(tight):
            out += gap(r, wild) if out else (gap(r, wild) if r.chance(0.1) else "")
        out += s
        pend = None
    if wild and r.chance(0.05):
        out += gap(r, True)
    return out


def kw(w):
    """A case-insensitive word."""
    return lambda r, wild: rand_case(r, w) if wild and r.chance(0.3) else w


def opkey(o):
    return [kw(k) if k.isalpha() else k for k in KEYS[o]]


class Gen:
    """Untyped queries over the whole grammar."""

    def __init__(self, r, names=None, strings=None, variants=False, maxlist=4, fns=None, paths=None, oddlists=0.08, entsql=False):
        self.r = r
        self.names = names or NAMES
        self.strings = strings or STRINGS
        self.variants = variants
        self.maxlist = maxlist
        self.fns = fns              # names of functions, default: any name
        self.paths = paths          # paths of names, default: any
        self.oddlists = oddlists    # how often a value is a list
        self.entsql = entsql        # only what the ent SQL builder can write
        self.fixed = names is not None

    # ------------------------------------------------------------- leaves
    def name(self):
        r = self.r
        if not self.fixed and r.chance(0.1):
            while True:
                n = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + "".join(
                    r.choice("abcXYZ_019not") for _ in range(r.randrange(0, 9)))
                low = n.lower()
                if not low.startswith("not") and not n.startswith(("true", "TRUE", "false", "FALSE", "null", "NULL")):
                    return n
        return r.choice(self.names)

    def string(self):
        r = self.r
        x = r.random()
        if x < 0.75:
            return r.choice(self.strings)
        if x < 0.9:
            return r.choice(self.strings) + r.choice(self.strings)
        n = r.choice([1, 2, 3, 8, 40]) if r.chance(0.95) else 300
        return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(1, 0x250), r.randrange(0x4e00, 0x4f00),
                                     r.randrange(0x1f600, 0x1f640)])) for _ in range(n))

    def string_tok(self, s):
        forms = []
        if "'" not in s:
            forms.append("'" + s + "'")
        if '"' not in s:
            forms.append('"' + s + '"')
        if not forms:
            return self.string_tok(s.replace("'", ""))
        return forms

    def integer(self):
        r = self.r
        if r.chance(0.75):
            return r.choice(INTS)
        n = r.randrange(1, 19)
        return str(r.randrange(10 ** (n - 1), 10 ** n))

    def literal(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return [[self.integer()]]
        if x < 0.8:
            return [self.string_tok(self.string())]
        if x < 0.92:
            return [r.choice([["true", "TRUE"], ["false", "FALSE"]])]
        return [["null", "NULL"]]

    def listlit(self, paren):
        """A list; paren: round brackets are lists here whatever the length."""
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, self.maxlist])
        if r.chance(0.02):
            n = r.randrange(5, 60)
        items = []
        for i in range(n):
            if i:
                items += [G0, [","], G0]
            items += self.literal()
        comma = ["", ","] if n and self.variants else ([r.choice(["", "", ","])] if n else [""])
        if self.variants:
            # the choice of brackets must be made for both ends together
            form = r.choice(["[]", "()"]) if (paren or n != 1) else "[]"
            return ("LIST", form if not paren else None, items, comma)
        form = r.choice(["[]", "()"])
        if form == "()" and not paren and n == 1:
            comma = [","]
        return [[form[0]], G0] + items + [G0, comma, G0, [form[1]]]

    def toks_list(self, paren):
        x = self.listlit(paren)
        if isinstance(x, tuple):
            _, form, items, comma = x
            if form is None:
                form = None
            if form is None:
                # one spelling each, rendered inside a single token
                def mk(f):
                    return lambda r, wild: render(r, [[f[0]], G0] + items + [G0, comma, G0, [f[1]]], wild)
                return [[mk("[]"), mk("()")]]
            return [[form[0]], G0] + items + [G0, comma, G0, [form[1]]]
        return x

    def value(self):
        if self.r.chance(self.oddlists):
            return self.toks_list(False)
        return self.literal()

    # -------------------------------------------------------- expressions
    def primary(self, d):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.22:
            return [["("], G0] + self.expr(d - 1) + [G0, [")"]]
        if x < 0.45:
            return self.value()
        if d > 0 and x < 0.55:
            n = r.choice([0, 1, 1, 2, 3])
            if r.chance(0.02):
                n = r.randrange(4, 14)
            if self.entsql:
                n = 1
            out = [[(r.choice(self.fns) if self.fns else self.name()) + "("], G0]
            for i in range(n):
                if i:
                    out += [G0, [","], G0]
                out += self.expr(d - 1) if r.chance(0.5) else self.primary(0)
            if n:
                out += [G0, ["", ","] if self.variants else [r.choice(["", "", ","])]]
            return out + [G0, [")"]]
        if x < 0.65:
            if self.paths is not None:
                return [[r.choice(self.paths or self.names)]]
            k = r.choice([2, 2, 2, 3, 4])
            return [[".".join(self.name() for _ in range(k))]]
        return [[self.name()]]

    def range_(self, d):
        r = self.r
        p = self.primary(d)
        if not r.chance(0.12):
            return p
        op = [["between"]] if r.chance(0.5) else [[kw("not")], G1, ["between"]]
        if self.variants:
            x, y = self.literal(), self.literal()

            def a(r2, wild):
                return render(r2, x + [G0, [kw("and")], G0] + y, wild)

            def b(r2, wild):
                return render(r2, [["["], G0] + x + [G0, [","], G0] + y + [G0, ["]"]], wild)
            # parenthesised: a bracketed range followed by "and" could be read as a bound
            return [["("], G0] + p + [G0] + op + [G0, [a, b], G0, [")"]]
        x, y = self.value(), self.value()
        if r.chance(0.5):
            b = x + [G0, [kw("and")], G0] + y
        else:
            b = [["["], G0] + x + [G0, [","], G0] + y + [G0, ["]"]]
        return p + [G0] + op + [G0] + b

    def predicate(self, d):
        r = self.r
        p = self.range_(d)
        if not r.chance(0.12):
            return p
        forms = MATCHES[r.choice(["is null", "is not null"] if self.entsql else list(MATCHES))]

        def mk(ws):
            def f(r2, wild):
                toks = []
                for i, w in enumerate(ws):
                    toks += ([G1] if i else []) + [[w]]
                return render(r2, toks, wild)
            return f
        return p + [G1, [mk(ws) for ws in forms], G0]

    def in_(self, d):
        r = self.r
        p = self.predicate(d)
        if not r.chance(0.12):
            return p
        op = [[kw("in")]] if r.chance(0.5) else [[kw("not")], G1, [kw("in")]]
        return p + [G0] + op + [G0] + self.toks_list(True)

    def compare_op(self):
        o = self.r.choice(COMPARES)
        if o == "not like":
            return [[kw("not")], G1, [kw("like")]]
        return [opkey(o)]

    def compare(self, d):
        r = self.r
        out = self.in_(d)
        n = 1 if r.chance(0.75) else r.choice([0, 0, 2])
        for _ in range(n):
            out = out + [G0] + self.compare_op() + [G0] + self.in_(d)
        return out

    def not_(self, d):
        c = self.compare(d)
        if self.r.chance(0.15):
            return [[kw("not")], G1] + c
        return c

    def expr(self, d):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3]) if d < 3 else r.choice([1, 2, 3, 4])
        if r.chance(0.01):
            n = r.randrange(5, 25)
        out = self.not_(d)
        for _ in range(n - 1):
            out = out + [G0, opkey(r.choice(["and", "or"])), G0] + self.not_(d)
        return out

    def query(self):
        r = self.r
        d = r.choice([0, 1, 1, 2, 2, 3])
        return [G0] + self.expr(d) + [G0]


SOUP = ["a", "b", "(", ")", "[", "]", ",", ".", "and", "or", "not", "in", "like", "between", "is", "null", "true", "false",
        "isnull", "notnull", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "&&", "||", "1", "0", "01", "'x'", '"y"', "'", '"',
        "--", "//", "--c\n", "\n", " ", "\t", "eq", "gte", "->", "-", "/", "f(", "date(", "x.y", "&", "|", "!", ";", "é",
        "NULL", "TRUE", "NOT", "AND", "Or", "IN", "LIKE", "IS", "BETWEEN", "1.5", "-1", "1e3", "*", " ", "\u0000", ":",
        "?", "9223372036854775807", "9223372036854775808", "is not null", "not in", "not between", "\r", "�", "﻿",
        "＝", "，", "（", "）", "“", "”", "’", "１", "≠", "≥", "…", "：", "；", "\u3000", "\u00a0", "ａ", "K", "ſ"]


def soup(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    sep = r.choice(["", " ", None])
    out = ""
    for _ in range(n):
        out += r.choice(SOUP)
        out += (r.choice(["", " "]) if sep is None else sep)
    return out


def mutate(r, s):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(len(s) + 1)
        x = r.random()
        if x < 0.3:
            s = s[:k] + s[k + 1:]
        elif x < 0.5:
            s = s[:k] + r.choice(SOUP) + s[k:]
        elif x < 0.6:
            s = s[:k] + chr(r.randrange(0, 256)) + s[k + 1:]
        elif x < 0.7:
            s = s[:k]
        elif x < 0.8:
            s = s[k:]
        elif x < 0.9:
            j = r.randrange(len(s) + 1)
            a, b = min(j, k), max(j, k)
            s = s[:a] + s[b:]
        else:
            j = r.randrange(len(s) + 1)
            a, b = min(j, k), max(j, k)
            s = s[:b] + s[a:b] + s[b:]
        s = s[:400]
    return s


def queries(seed, n, limit=400, **kw_):
    """n texts that are queries (by construction of the generator)."""
    r = Rand(seed)
    g = Gen(r, **kw_)
    out = []
    while len(out) < n:
        s = render(r, g.query(), wild=r.chance(0.7), tight=r.choice([0.1, 0.5, 1.0]))
        if len(s) <= limit or r.chance(0.02) and len(s) < 3000:
            out.append(s)
    return out


# ---------------------------------------------------------------- typed queries
T_INTS = ["0", "1", "2", "3", "7", "42", "9007199254740992", "9007199254740993", "9223372036854775807"]
T_STRS = ["", "a", "A", "b", "ab", "aB", "abc", "a%", "_b", "%", "é", "É", "日本", "O'Reilly", 'say "hi"', "a\\b", "x y", "null",
          "1", "0", "10", "9", "--", "?", "a,b", ")", "\n", "@x", "$1"]
T_LIKE = ["%", "_", "a%", "%b", "%a%", "A_", "__", "a_c", "", "%%", "_%_", "é", "%é%", "É%", "\\%", "O'R%", "%\"%", "?", "ab", "aB%"]
T_DATES = ["2021-05-12", "2021-05-13", "2020-02-29", "1999-12-31", "2021-05-12 00:00:00", "2021-05-12 23:59:59",
           "2021-05-13T10:00:00", "2021-12-31 12:30:00"]
T_DAYS = ["2021-05-12", "2021-05-13", "2020-02-29", "1999-12-31", "2021-12-31"]


class Typed(Gen):
    """Queries that are meaningful SQL: numbers are compared with numbers, texts with texts.

    cols: {"n": names of numeric columns, "s": of text columns, "d": of date columns}
    """

    def __init__(self, r, cols, ints=None, strs=None, truth=True, nest=True, variants=False, bare=True, notbetween=True,
                 dates=True):
        super().__init__(r, variants=variants)
        self.cols = cols
        self.ints = ints or T_INTS
        self.strs = strs or T_STRS
        self.truth = truth          # is true, is false
        self.nest = nest            # comparisons as operands of comparisons
        self.bare = bare            # columns and literals as conditions
        self.notbetween = notbetween
        self.dates = dates

    def lit(self, t):
        r = self.r
        if r.chance(0.06):
            return [["null", "NULL"]]
        if t == "n":
            if r.chance(0.2):
                return [r.choice([["true", "TRUE"], ["false", "FALSE"]])]
            return [[r.choice(self.ints)]]
        if t == "d":
            return [self.string_tok(r.choice(T_DAYS))]
        return [self.string_tok(r.choice(self.strs))]

    def lits(self, t):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 5])
        items = []
        for i in range(n):
            items += ([G0, [","], G0] if i else []) + self.lit(t)
        f = r.choice(["[]", "()"])
        return [[f[0]], G0] + items + [G0, [r.choice(["", "", ","]) if n else ""], G0, [f[1]]]

    def typ(self):
        x = self.r.random()
        if x < 0.12 and self.dates and self.cols.get("d"):
            return "d"
        return "s" if x < 0.45 and self.cols.get("s") else "n"

    def prim(self, t, d):
        r = self.r
        if t == "n" and d > 0 and self.nest and r.chance(0.2):
            return [["("], G0] + self.expr(d - 1) + [G0, [")"]]
        if t == "d":
            if r.chance(0.15):
                return [["date("], G0] + [self.string_tok(r.choice(T_DATES))] + [G0, [")"]]
            return [["date("], G0, [r.choice(self.cols["d"])], G0, [r.choice(["", "", ","])], G0, [")"]]
        if r.chance(0.15):
            return self.lit(t)
        return [[r.choice(self.cols[t])]]

    def test(self, d):
        """A condition that is a primary, range, match or membership: usable as an operand."""
        r = self.r
        x = r.random()
        t = self.typ()
        p = self.prim(t, d)
        if x < 0.3:
            neg = self.notbetween and r.chance(0.45)
            op = [[kw("not")], G1, ["between"]] if neg else [["between"]]
            a, b = self.lit(t), self.lit(t)
            if r.chance(0.7):
                return p + [G0] + op + [G0] + a + [G0, [kw("and")], G0] + b
            # parenthesised: a bracketed range followed by "and" could be read as a bound
            return [["("], G0] + p + [G0] + op + [G0, ["["], G0] + a + [G0, [","], G0] + b + [G0, ["]"], G0, [")"]]
        if x < 0.6:
            names = ["is null", "is not null"]
            if self.truth and t == "n":
                names += ["is true", "is false", "is not true", "is not false"]
            forms = MATCHES[r.choice(names)]
            ws = r.choice(forms)
            toks = []
            for i, w in enumerate(ws):
                toks += ([G1] if i else []) + [[w]]
            return p + [G1] + toks + [G0]
        op = [[kw("in")]] if r.chance(0.5) else [[kw("not")], G1, [kw("in")]]
        return p + [G0] + op + [G0] + self.lits(t)

    def operand(self, t, d):
        if t == "n" and self.nest and d > 0 and self.r.chance(0.12):
            return self.test(d - 1)
        return self.prim(t, d)

    def compare(self, d):
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.test(d)
        if x < 0.45:
            if d > 0:
                return [["("], G0] + self.expr(d - 1) + [G0, [")"]]
            if self.bare:
                return self.prim("n", d)
        t = self.typ()
        if t == "s" and r.chance(0.4):
            op = [[kw("like")]] if r.chance(0.6) else [[kw("not")], G1, [kw("like")]]
            return self.prim("s", d) + [G0] + op + [G0] + [self.string_tok(r.choice(T_LIKE))]
        out = self.operand(t, d) + [G0] + [opkey(r.choice(COMPARES[:6]))] + [G0] + self.operand(t, d)
        while self.nest and r.chance(0.1):
            out = out + [G0] + [opkey(r.choice(COMPARES[:6]))] + [G0] + self.operand("n", d)
        return out


def typed(seed, n, cols, limit=260, **kw_):
    r = Rand(seed)
    g = Typed(r, cols, **kw_)
    out = []
    while len(out) < n:
        s = render(r, g.query(), wild=r.chance(0.5), tight=r.choice([0.1, 0.5, 1.0]))
        if len(s) <= limit:
            out.append(s)
    return out


def cell(v):
    if v is None:
        return {"t": "null"}
    if isinstance(v, bool):
        return {"t": "bool", "b": v}
    if isinstance(v, int):
        return {"t": "int", "d": [ord(c) for c in str(v)]}
    return {"t": "str", "s": [ord(c) for c in v]}


def item_tables(seed, n, rows=9):
    """Contents of the items table."""
    r = Rand(seed)
    cols = ["id", "i", "j", "s", "t", "b", "c", "d"]
    out = []
    for k in range(n):
        rs = []
        for i in range(rows):
            null = r.choice([0.1, 0.3])

            def v(f):
                return None if r.chance(null) else f()
            rs.append([cell(x) for x in [
                i + 1, v(lambda: int(r.choice(T_INTS))), v(lambda: int(r.choice(T_INTS))),
                v(lambda: r.choice(T_STRS)), v(lambda: r.choice(T_STRS)),
                v(lambda: r.chance(0.5)), v(lambda: r.chance(0.5)), v(lambda: r.choice(T_DATES))]])
        if k == 0:
            rs = []     # the empty table
        out.append({"items": {"columns": cols, "rows": rs}})
    return out


# ------------------------------------------------------- models with relations
GONE = "2021-01-01 00:00:00"
PERSON_COLS = ["id", "created_by", "title", "name", "nick_name", "NickName", "code_a", "code_b", "Dept", "addr_city",
               "addr_STREET", "boss_id", "dept_id", "town_id"]
DEPT_COLS = ["id", "name", "dept_title", "city", "head_id"]
BADGE_COLS = ["id", "person_id", "name", "deleted_at"]
AWARD_COLS = BADGE_COLS[:3]
SEAL_COLS = ["id", "owner_id", "owner_type", "name"]
PERSON_FIELDS = ["ID", "CreatedBy", "Name", "Title", "NickName", "Label", "Code", "CODE", "Note", "Hidden", "City", "Street",
                 "BossID", "Boss", "DeptID", "Dept", "Badge", "Seal", "TownID", "Town", "Awards", "Staff", "Clubs", "LandID"]
DEPT_FIELDS = ["ID", "Name", "Title", "City", "HeadID"]
SEAL_FIELDS = ["ID", "OwnerID", "OwnerType", "Name"]
BADGE_FIELDS = ["ID", "PersonID", "Name", "Secret", "DeletedAt"]


def person_tables(seed, n):
    """People, departments and badges; every text is unique to its row and column."""
    r = Rand(seed)
    out = []
    for k in range(n):
        np, nd, nb = r.choice([4, 6, 7]), r.choice([2, 3]), r.choice([2, 4])
        ps = []
        for i in range(1, np + 1):
            row = [i] + ["%s%d" % (c, i) for c in PERSON_COLS[1:-3]]
            row += [r.choice([None] + list(range(1, np + 1)))] + [r.choice([None] + list(range(1, nd + 1))) for _ in range(2)]
            ps.append(row)
        ds = [[i] + ["%s-d%d" % (c, i) for c in DEPT_COLS[1:4]] + [r.choice([None, 1, 2])] for i in range(1, nd + 1)]
        owners = r.sample(range(1, np + 1), min(nb, np))
        bs = [[i, owners[i - 1] if r.chance(0.8) else None, "name-b%d" % i, None] for i in range(1, len(owners) + 1)]
        # deleted badges, of people with and without another one
        bs += [[i, r.randrange(1, np + 1), "name-b%d" % i, GONE] for i in range(len(bs) + 1, len(bs) + 4)]
        r.shuffle(bs)
        # seals of people, and of other things with the same ids
        ss = [[i, o, "people"] for i, o in enumerate(r.sample(range(1, np + 1), 3), 1)]
        ss += [[i, r.choice([None] + list(range(1, np + 1))), r.choice(["depts", "", "People", "person"])] for i in range(4, 8)]
        ss = [x + ["name-s%d" % x[0]] for x in ss]
        r.shuffle(ss)
        ws = [[i, r.choice([None, 1, 1, 2]), "name-w%d" % i] for i in range(1, 5)]
        t = {}
        for m, cols, rows in (("persons", PERSON_COLS, ps), ("depts", DEPT_COLS, ds), ("badges", BADGE_COLS, bs),
                              ("awards", AWARD_COLS, ws), ("seals", SEAL_COLS, ss)):
            t[m] = {"columns": cols, "rows": [[cell(v) for v in row] for row in rows], "raw": rows}
        out.append(t)
    return out


def case_forms(w):
    """The name in other letter cases."""
    return [w, w.lower(), w.upper(), w.swapcase(), w[:1].lower() + w[1:], w[:1].upper() + w[1:]]


def near(r, s):
    """A text that differs a little from another one, in the language or not."""
    def change(i, x):
        return s[:i] + x + s[i + 1:]
    i = r.randrange(len(s)) if s else 0
    return r.choice([
        s.upper(), s.lower(), s.swapcase(), "".join(x.swapcase() if r.chance(0.2) else x for x in s), change(i, s[i:i + 1].swapcase()),
        " ".join(s.split()), s.strip(), " " + s, s + "\n", s.replace(" ", "  "), s.replace(" ", "\t"), s[:-1], s + s[-1:], s[1:],
        s.replace("'", '"'), s.replace("[", "(").replace("]", ")"), "(" + s + ")", "not " + s, s + " and 1 = 1", change(i, r.choice("a1 _(")),
        "".join("2" if x == "1" else "1" if x == "2" else x for x in s)])


def snake(w):
    return "".join("_" + x.lower() if x.isupper() and i else x.lower() for i, x in enumerate(w))


def note_rows(r, n):
    """Rows of the notes table, some of them deleted."""
    rs = []
    for i in range(n):
        def v(f):
            return None if r.chance(0.2) else f()
        rs.append([cell(x) for x in [i + 1, v(lambda: int(r.choice(["0", "1", "2"]))), v(lambda: int(r.choice(["0", "1", "2"]))),
                                     v(lambda: r.choice(T_STRS)), v(lambda: r.choice(T_STRS)),
                                     GONE if r.chance(0.3) else None]])
    return rs


def session_tables(seed, n):
    """Contents with rows of every model."""
    r = Rand(seed)
    out = []
    items = item_tables(seed + 1, n + 1, rows=8)
    for k, p in enumerate(person_tables(seed + 2, n)):
        for m in p:
            p[m].pop("raw")
        p.update(items[k + 1])
        p["notes"] = {"columns": ["id", "i", "j", "s", "t", "deleted_at"], "rows": note_rows(r, 8)}
        out.append(p)
    return out
