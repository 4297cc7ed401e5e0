"""Texts with symbolic parts: literal characters, decimal renderings of symbolic integers >= 0, blanks of arbitrary number, and the
join of a sequence of texts by a separator.  Operations are implemented where their result is the same for all values."""
import re

try:
    from re import _parser as sre
except ImportError:  # older Pythons
    import sre_parse as sre

from .core import P, Unsupported, c_le

DIGITS = set("0123456789")
DIGITSET = "0123456789"


class Num:
    """the decimal digits (no sign, no leading zero) of an integer >= 0"""

    def __init__(self, v):
        self.v = P.of(v)

    def subst(self, s):
        return Num(self.v.subst(s))

    def __repr__(self):
        return "{" + repr(self.v) + "}"

    def same(self, o):
        return isinstance(o, Num) and self.v == o.v


class Blanks:
    """an arbitrary number (maybe 0) of spaces"""

    def __init__(self, name):
        self.name = name

    def subst(self, s):
        return self

    def __repr__(self):
        return "{blanks}"


class Join:
    """the texts of a sequence of at least one element, separated by sep"""

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq

    def subst(self, s):
        from .interp import vsubst

        return Join(self.sep, vsubst(self.seq, s))

    def texts(self):
        return [text([v]) if isinstance(v, str) else v for _, v in self.seq.items]

    def __repr__(self):
        return "{join " + repr(self.sep) + "}"


class Text:
    vsym = True

    def __init__(self, parts):
        self.parts = parts

    def resubst(self, s):
        return Text([p if isinstance(p, str) else p.subst(s) for p in self.parts])

    def __repr__(self):
        return "Text" + repr(self.parts)

    # ------------------------------------------------------------------
    def chars_known(self, p, chars):
        """no character of `chars` occurs in the part p"""
        if isinstance(p, str):
            return not (set(chars) & set(p))
        if isinstance(p, Num):
            return not (set(chars) & DIGITS)
        if isinstance(p, Blanks):
            return " " not in chars
        if isinstance(p, Join):
            return not (set(chars) & set(p.sep)) and all(isinstance(t, str) and not (set(chars) & set(t)) or isinstance(t, Text) and all(t.chars_known(q, chars) for q in t.parts) for t in p.texts())
        return False

    def contains(self, x):
        if not isinstance(x, str) or not x:
            raise Unsupported("search in a text")
        for p in self.parts:
            if isinstance(p, str) and x in p:
                return True
            if isinstance(p, Join) and x in p.sep:
                raise Unsupported("search for a separator")
        # absent: some character of x occurs in no part that is not literal, and the literals alone do not contain x
        for p in self.parts:
            if not isinstance(p, str) and not all(self.chars_known(p, ch) for ch in x):
                raise Unsupported(f"search for {x!r}")
        return False

    def split(self, it, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or not sep or maxsplit != -1 or any(not isinstance(p, (str, Join)) and not all(self.chars_known(p, ch) for ch in sep) for p in self.parts):
            raise Unsupported("split of a text")
        if len(self.parts) == 1 and isinstance(self.parts[0], Join) and self.parts[0].sep == sep:
            j = self.parts[0]
            for t in j.texts():
                if not (isinstance(t, str) and not set(sep) & set(t)) and not (isinstance(t, Text) and all(t.chars_known(p, sep) for p in t.parts)):
                    raise Unsupported("separator inside an element")
            return j.seq
        if any(isinstance(p, Join) and not all(self.chars_known(p, ch) for ch in sep) for p in self.parts):
            raise Unsupported("split of a text")
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                first, *rest = p.split(sep)
                out[-1].append(first)
                out += [[r] for r in rest]
            else:
                out[-1].append(p)
        return [text(x) for x in out]

    def strip(self, it, chars=None, left=True, right=True):
        if chars is not None and (not isinstance(chars, str) or set(chars) & DIGITS):
            raise Unsupported("strip")
        if chars is not None and any(isinstance(p, Blanks) for p in self.parts) and " " not in chars:
            raise Unsupported("strip")
        ps = list(self.parts)

        def edge(p):
            return p if not isinstance(p, Join) else None

        while left and ps:
            p = ps[0]
            if isinstance(p, Join):
                raise Unsupported("strip of a join")
            if isinstance(p, Num):
                break
            q = "" if isinstance(p, Blanks) else p.lstrip(chars)
            if q:
                ps[0] = q
                break
            ps.pop(0)
        while right and ps:
            p = ps[-1]
            if isinstance(p, Join):
                raise Unsupported("strip of a join")
            if isinstance(p, Num):
                break
            q = "" if isinstance(p, Blanks) else p.rstrip(chars)
            if q:
                ps[-1] = q
                break
            ps.pop()
        return text(ps)

    def getitem(self, it, i):
        from .interp import PyRaise

        if isinstance(i, P) and i.is_const():
            i = int(i.const())
        ps = self.parts
        first, last = ps[0], ps[-1]  # (a text with a symbolic part is not a literal; blanks may be empty)
        if isinstance(i, int):
            if i >= 0 and isinstance(first, str) and i < len(first):
                return first[i]
            if i < 0 and isinstance(last, str) and -i <= len(last):
                return last[i]
        if isinstance(i, slice) and i.step in (None, 1):
            lo, hi = [int(x.const()) if isinstance(x, P) and x.is_const() else x for x in (i.start, i.stop)]
            out = list(ps)
            ok = True
            # (a numeral has at least one digit, so the cuts below stay inside the literal ends)
            if hi is not None:
                ok = ok and isinstance(hi, int) and hi < 0 and isinstance(last, str) and -hi <= len(last)
                if ok:
                    out[-1] = last[:hi]
            if lo is not None and ok:
                ok = isinstance(lo, int) and lo >= 0 and isinstance(out[0], str) and lo <= len(out[0])
                if ok:
                    out[0] = out[0][lo:]
            if ok:
                return text(out)
        raise Unsupported(f"subscript {i} of {self!r}")

    def to_int(self, it):
        from .interp import PyRaise

        t = self.strip(it)
        if isinstance(t, str):
            try:
                return int(t)
            except ValueError as e:
                raise PyRaise(ValueError, str(e))
        ps = t.parts
        sign = 1
        if len(ps) == 2 and ps[0] in ("+", "-") and isinstance(ps[1], Num):
            sign, ps = (-1 if ps[0] == "-" else 1), ps[1:]
        if len(ps) == 1 and isinstance(ps[0], Num):
            return ps[0].v * sign
        if any(isinstance(p, str) and set(p) - DIGITS - set("+-_ ") for p in ps) or any(isinstance(p, str) and set(p) & set("+-") for p in ps[1:]):
            raise PyRaise(ValueError, "invalid literal for int()")
        raise Unsupported(f"int of {self!r}")

    def equals(self, o):
        """decided only when it is the same for all values"""
        if isinstance(o, Text):
            if len(o.parts) == len(self.parts) and all(p == q if isinstance(p, str) else getattr(p, "same", lambda _: False)(q) for p, q in zip(self.parts, o.parts)):
                return True
            raise Unsupported("equality of texts")
        if isinstance(o, str):
            if any(isinstance(p, str) and not all(ch in o for ch in p) for p in self.parts):
                return False
            if any(isinstance(p, Num) for p in self.parts) and not set(o) & DIGITS:
                return False
            if isinstance(self.parts[0], str) and not o.startswith(self.parts[0]) or isinstance(self.parts[-1], str) and not o.endswith(self.parts[-1]):
                return False
            raise Unsupported("equality of texts")
        return False

    def method(self, it, name, a, k):
        if name == "split" and not k:
            return self.split(it, *a)
        if name in ("strip", "lstrip", "rstrip") and not k:
            return self.strip(it, *a, left=name != "rstrip", right=name != "lstrip")
        if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], str) and not k:
            p = self.parts[0 if name == "startswith" else -1]
            x = a[0]
            if isinstance(p, str) and len(x) <= len(p):
                return getattr(p, name)(x)
            if isinstance(p, Num) and x and x[0 if name == "startswith" else -1] not in DIGITSET:
                return False
            raise Unsupported(name)
        if name in ("partition", "rpartition") and len(a) == 1 and not k:
            r = self.split(it, a[0])
            if not isinstance(r, list):
                raise Unsupported(name)
            if len(r) == 1:
                return (self, "", "") if name == "partition" else ("", "", self)
            if name == "partition":
                return (r[0], a[0], text(sum([[x, a[0]] for x in r[1:]], [])[:-1]))
            return (text(sum([[x, a[0]] for x in r[:-1]], [])[:-1]), a[0], r[-1])
        if name in ("replace", "removeprefix", "removesuffix") and not k and all(isinstance(x, str) for x in a):
            if name == "replace" and len(a) == 2 and a[0]:
                return text(sum([[x, a[1]] for x in self.split(it, a[0])], [])[:-1])
            p = self.parts[0 if name == "removeprefix" else -1]
            if isinstance(p, str) and len(a[0]) <= len(p):
                return text([getattr(p, name)(a[0])] + self.parts[1:] if name == "removeprefix" else self.parts[:-1] + [getattr(p, name)(a[0])])
        if name == "count" and len(a) == 1 and isinstance(a[0], str) and not k:
            r = self.split(it, a[0])
            if isinstance(r, list):
                return len(r) - 1
        if name == "isdigit" or name == "isnumeric" or name == "isdecimal":
            if all(isinstance(p, Num) or isinstance(p, str) and p.isdigit() for p in self.parts):
                return True
            if any(isinstance(p, str) and set(p) - DIGITS for p in self.parts):
                return False
        raise Unsupported(f"{name} of a text")


def text(parts):
    """normal form: a str if there is no symbolic part"""
    out = []
    for p in parts:
        for q in p.parts if isinstance(p, Text) else [p]:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif not (isinstance(q, str) and not q):
                out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Text(out)


# --- regular expressions ------------------------------------------------------------------------------
class Match:
    vsym = True

    def __init__(self, groups):
        self.g = groups

    def resubst(self, s):
        return Match([g.resubst(s) if isinstance(g, Text) else g for g in self.g])

    def method(self, it, name, a, k):
        if name == "group" and not k:
            r = tuple(self.g[x] for x in (a or [0]))
            return r[0] if len(r) == 1 else r
        if name == "groups" and not a and not k:
            return tuple(self.g[1:])
        raise Unsupported(f"{name} of a match")

    def getitem(self, it, i):
        return self.g[i]


def digit_atoms(p, flags=0):
    """the number of \\d in a pattern whose digit classes are all \\d+ or \\d*, or Unsupported: such a pattern does not see the
    digits of a numeral, and its number of digits only through the number of numerals it is cut into"""
    n = 0
    for op, av in p:
        op = str(op)
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            if is_digit(sub):
                if hi != sre.MAXREPEAT or lo > 1:
                    raise Unsupported("regular expression counting digits")
                n += 1
            else:
                n += digit_atoms(sub)
        elif op == "SUBPATTERN":
            n += digit_atoms(av[-1])
        elif op == "LITERAL":
            if chr(av) in DIGITS:
                raise Unsupported("regular expression with a digit")
        elif op == "IN":
            for o, v in av:
                if str(o) != "LITERAL" or chr(v) in DIGITS:
                    raise Unsupported("regular expression with a class")
        elif op == "AT":
            pass
        elif op == "BRANCH":
            n += sum(digit_atoms(x) for x in av[1])
        else:
            raise Unsupported(f"regular expression: {op}")
    return n


def is_digit(sub):
    if len(sub) != 1:
        return False
    op, av = sub[0]
    return str(op) == "IN" and len(av) == 1 and (str(av[0][0]) == "CATEGORY" and str(av[0][1]) == "CATEGORY_DIGIT" or str(av[0][0]) == "RANGE" and av[0][1] == (48, 57))


def regex(how, pattern, t):
    """re.match and re.fullmatch on a text: the pattern does not see the values of the numerals, so it matches as it does on
    representatives; all numerals of one digit and all of 9 digits have to behave alike"""
    if not isinstance(pattern, str):
        pattern = pattern.pattern
    if digit_atoms(sre.parse(pattern)) > 4:
        raise Unsupported("regular expression")
    if any(isinstance(p, (Blanks, Join)) for p in t.parts):
        raise Unsupported("regular expression on blanks")
    if any(isinstance(a, Num) and (isinstance(b, Num) or b[:1] in DIGITS) or isinstance(b, Num) and a[-1:] in DIGITS for a, b in zip(t.parts, t.parts[1:]) if isinstance(a, Num) or isinstance(b, Num)):
        raise Unsupported("adjacent digits")
    out = []
    for width in (1, 9):
        s, pos = "", []
        for p in t.parts:
            q = p if isinstance(p, str) else "7" * width
            pos.append((len(s), len(s) + len(q)))
            s += q
        m = getattr(re, how)(pattern, s)
        if m is None:
            out.append(None)
            continue
        gs = []
        for k in range(m.re.groups + 1):
            a, b = m.span(k)
            if a < 0:
                gs.append(None)
                continue
            r = []
            for p, (x, y) in zip(t.parts, pos):
                if b <= x or a >= y:
                    continue
                if isinstance(p, str):
                    r.append(("lit", p[max(a - x, 0) : min(b, y) - x]))
                elif a <= x and y <= b:
                    r.append(("part", p))
                else:
                    raise Unsupported("a match inside a numeral")
            gs.append(r)
        out.append(gs)
    if out[0] != out[1]:
        raise Unsupported("a match that depends on the number of digits")
    if out[0] is None:
        return None
    return Match([None if g is None else text([v for _, v in g]) for g in out[0]])
