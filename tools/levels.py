# properties whose deductive layer discharges obligations for all inputs of the stated domain
PROOF = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"}
LEVELS = {i: "proof" for i in PROOF}


def TECH(i):
    if i in PROOF:
        return "contract-based deductive verification (obligations from /repo's source; z3 and sum normaliser), plus bounded contract evaluation"
    if i == "C14":
        return ("contract-based deductive verification (obligations from /repo's source; z3 and rational normaliser) for arbitrary entries of rows of at most 4 or 5 "
                "integers (bounded in N only), plus bounded contract evaluation")
    return "runtime contract evaluation on the real code, bounded; contracts of germinate, compose and inverse discharged"


def NOTE(i):
    return REST[i]


# property -> what is proved and what is only bounded
REST = {
    "C01": "Proved for all labels: SU2, SU2Real, SO3, O3, Z2, SL2C, SO13 (shapes, algebra, brackets, discrete generators, realness where documented), dim of SU(N) rows of at most 5 "
           "integers. Bounded: the SU(N) generators (labels up to stated dimensions, N up to 6), inequivalence of different labels.",
    "C02": "Proved for all labels: the rules of SU2, SU2Real, SO3, O3, Z2, SL2C, SO13 (each constituent once, none else, dimensions add up). Bounded: the rule of SU(N) "
           "against the characters, and the number of paths.",
    "C03": "Proved for all labels, from the contract of clebsch_gordanSU2mat (Racah's formula; that contract is evaluated with bounds, exactly, and not proved): SU2, SU2Real, SO3, O3, SL2C; "
           "Z2 outright; the generic clebsch_gordan for every pair. Bounded: clebsch_gordanSU2mat itself, SO13 and SU(N).",
    "C04": "Proved for all labels of SU2, SU2Real, SO3, O3, Z2, SL2C, SO13: iterator (with loop invariants), <, is_scalar, rejection of invalid labels. Bounded: SU(N) order and iterator; hash and pickling.",
    "C05": "Proved for all dimensions and numbers of generators. Bounded: the same on tabulated classes, and the rejection of different algebras.",
    "C06": "Proved for all multiplicities and lists of any length. Bounded: the rejection of inconsistent arguments.",
    "C07": "Proved for all sizes for each pair of kinds of operands; powers by the induction step (tensor_power_exponent). Bounded: the contents of ReducedRep.__pow__ on concrete classes.",
    "C08": "Proved for any number of discrete generators, any exponents. Bounded: agreement on the classes (numerical).",
    "C09": "Proved for all sizes given exact rank decisions (the assumption on epsilon). Bounded: random reducible representations.",
    "C10": "Proved for batches and blocks of any size, lists of any length. Bounded: regular_representation, vmap.",
    "C11": "Proved: limit_denominator (both branches, all normalised pairs), normalisation, the rounding functions on top. Bounded: as_approx_integer_ratio (binary floating point representation).",
    "C12": "Proved: germinate (least closed set, for any set and any n, by a loop invariant), compose, inverse, identity for every n; is_perm for at most 4 arbitrary integers. "
           "Bounded: sign, to_int, from_int, to_cycles, is_group, permutation_sign (n up to 7).",
    "C13": "Proved: the closure of the permutations (germinate, compose, inverse). Bounded: everything else, on random formulas and representations (random Q with entries rational multiples of square roots: "
           "rounding to other irrational numbers is outside the domain; a zero-dimensional result raises AssertionError, outside the domain).",
    "C14": "Proved for arbitrary integers in rows of at most 5 (dimension, interlacing, indexing, enumeration, weights) or 4 entries (ladders and commutators): the steps from N - 1 to N rows, i.e. bounded in N and "
           "in nothing else. Bounded: rows of up to 6 entries, large entries, and the assembled matrices.",
    "C15": "Proved for every n: natural and standard generators and Coxeter-type relations. Bounded: characters for n up to 8.",
    "C16": "Proved: each predicate is the comparison it should be, for all sizes (allclose taken as equality). Bounded: tolerances and near misses.",
    "C17": "Proved: frames (each contract of every file). Bounded: independence of earlier calls, including failing ones (sequences of calls on the real library).",
    "C18": "Proved: strings built of symbolic integers and symbols for all integers; SU(N) rows up to 8 entries. Bounded: white space variants and rejected strings.",
    "C19": "Proved for all sizes, given that eigenspaces of a random element of the commutant are irreducible (assumption, evaluated). Bounded: random reducible representations of every kind.",
    "C20": "Proved for every rank >= 2 (A: >= 1); weyl_dim within double precision (dimensions below 2^48). SPN rank 1 raises (outside the domain); SON is claimed only through the root systems.",
    "C21": "Proved for all matrices and all exponents below 2^31, from documented JAX semantics. Bounded: jit and pytrees on the real JAX.",
    "C22": "Proved for all sizes given exact rank decisions. Bounded: numerical ranks, unique_with_tol.",
    "C23": "Proved for two and three factors of any dimension and any number of generators. Bounded: multiplicities, use in ReducedRep.",
    "C24": "Proved: is_real, and what make_explicitly_real returns, given the assumptions listed. Bounded: existence of a result for real representations. make_explicitly_real of a reducible real "
           "representation with more than one intertwiner raises by an assertion of the code (documented limitation).",
}
