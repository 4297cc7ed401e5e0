"""C18: from_string, on texts whose numerals are arbitrary integers >= 0 (in decimal) and lists of arbitrary length."""
import lie_nn as lie
from lie_nn._src.irreps import son, spn, sun
from vlib.sym.contract import contract

SU2, SO3, O3, Z2, SL2C, SO13, MulIrrep, ReducedRep = (lie.irreps.SU2, lie.irreps.SO3, lie.irreps.O3, lie.irreps.Z2, lie.irreps.SL2C, lie.irreps.SO13, lie.MulIrrep, lie.ReducedRep)
I = "lie_nn._src.irreps."


@contract("C18", targets=[I + "su2.SU2.from_string", I + "so3_real.SO3.from_string"])
def integers(c):
    n = c.int("n", 0, sample=(0, 10**6))
    a = c.call(SU2.from_string, c.text(n))
    c.ensure("SU2", isinstance(a, SU2) and a.j == n)
    b = c.call(SO3.from_string, c.text(n))
    c.ensure("SO3", isinstance(b, SO3) and b.l == n)


@contract("C18", targets=[I + "o3_real.O3.from_string", I + "z2.Z2.from_string"])
def parities(c):
    n = c.int("n", 0, sample=(0, 10**6))
    p = c.choose("parity", [1, -1])
    s = "e" if p == 1 else "o"
    a = c.call(O3.from_string, c.text(c.blanks("left"), n, s, c.blanks("right")))
    c.ensure("O3", isinstance(a, O3) and a.l == n)
    c.ensure("parity of O3", a.p == p)
    b = c.call(Z2.from_string, c.text(c.blanks("left"), s, c.blanks("right")))
    c.ensure("Z2", isinstance(b, Z2) and b.p == p)


@contract("C18", targets=[I + "sl2c.SL2C.from_string", I + "so13.SO13.from_string"])
def pairs(c):
    l, k = c.int("l", 0, sample=(0, 10**6)), c.int("k", 0, sample=(0, 1000))
    a = c.call(SL2C.from_string, c.text(c.blanks("left"), "(", l, ",", k, ")", c.blanks("right")))
    c.ensure("SL2C", isinstance(a, SL2C) and (a.l == l) & (a.k == k))
    k = l % 2 + 2 * k
    b = c.call(SO13.from_string, c.text(c.blanks("left"), "(", l, ",", k, ")", c.blanks("right")))
    c.ensure("SO13", isinstance(b, SO13) and (b.l == l) & (b.k == k))


def row(c, cls, N):
    steps = [c.int(f"s{k}", 0, sample=(0, 30)) for k in range(N)]
    S = [sum(steps[k:]) for k in range(N)]
    if issubclass(cls, sun.SUN):
        S = [x - S[-1] for x in S]
    parts = ["("]
    for x in S:
        parts += [x, ","]
    a = c.call(cls.from_string, c.text(*parts[:-1], ")"))
    c.ensure("class", isinstance(a, cls) and len(a.S) == N)
    for k, x in enumerate(S):
        c.ensure("entries in order", a.S[k] == x)


@contract("C18", targets=[I + "sun.SUN.from_string"])
def rows(c):
    row(c, *c.choose("family", [(lie.irreps.SU2_, 2), (lie.irreps.SU3, 3), (lie.irreps.SU4, 4)]))


@contract("C18", targets=[I + "sun.SUN.from_string", I + "spn.SPN.from_string", I + "son.SON.from_string"], bounded="rows of at most 8 entries (the entries are arbitrary)")
def rows_of_any_length(c):
    cls = c.choose("family", [sun.SUN, spn.SPN, son.SON])
    row(c, cls, c.choose("length", [1, 2, 3, 5, 8]))


# --- terms and lists -----------------------------------------------------------------------------

FAMS = ["SU2", "SO3", "O3", "SL2C", "SO13"]


def label(c, fam, n, k, p):
    """an irrep and its text"""
    if fam == "O3":
        return c.new(O3, l=n, p=p), c.text(n, "e" if p == 1 else "o")
    if fam == "SL2C":
        return c.new(SL2C, l=n, k=k), c.text("(", n, ",", k, ")")
    if fam == "SO13":
        return c.new(SO13, l=n, k=n % 2 + 2 * k), c.text("(", n, ",", n % 2 + 2 * k, ")")
    if fam == "SO3":
        return c.new(SO3, l=n), c.text(n)
    return c.new(SU2, j=n), c.text(n)


@contract("C18", targets=["lie_nn._src.reduced_rep.MulIrrep.from_string"])
def term(c):
    fam = c.choose("family", FAMS)
    cls = getattr(lie.irreps, fam)
    r, s = label(c, fam, c.int("n", 0), c.int("k", 0), c.choose("p", [1, -1]))
    m = c.int("mul", 0, sample=(0, 200))
    a = c.call(MulIrrep.from_string, c.text(m, "x", s), cls)
    c.ensure("multiplicity", isinstance(a, MulIrrep) and a.mul == m)
    c.ensure("irrep", isinstance(a.rep, cls) and a.rep == r)
    b = c.call(MulIrrep.from_string, s, cls)
    c.ensure("no multiplicity is 1", b.mul == 1)
    c.ensure("irrep alone", isinstance(b.rep, cls) and b.rep == r)


@contract("C18", targets=["lie_nn._src.reduced_rep.ReducedRep.from_string"])
def list_of_terms(c):
    fam = c.choose("family", FAMS)
    cls = getattr(lie.irreps, fam)
    p = c.choose("p", [1, -1])
    explicit = c.choose("multiplicities given", [True, False])
    N = c.int("N", 1)
    item = lambda i: label(c, fam, c.family("n", i), c.family("k", i), p)  # noqa: E731
    mul = lambda i: c.family("mul", i) if explicit else 1  # noqa: E731
    terms = c.seq("terms", N, lambda i: c.text(mul(i), "x", item(i)[1]) if explicit else item(i)[1])
    R = c.call(ReducedRep.from_string, c.join("+", terms), cls)
    want = c.seq("irreps", N, lambda i: c.new(MulIrrep, mul=mul(i), rep=item(i)[0]))
    c.same_sequence("irreps in order", R.irreps, want)
    c.ensure("no change of basis", R.Q is None)
