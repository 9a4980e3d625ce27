"""Which harness configurations decide which property, and within what bounds."""

ASSUME = [
    "g++ 13 / libstdc++ on x86-64; other standard libraries may show other growth and hashing behaviour",
    "element types, allocators and predicates outside the alphabet of the harness are not exercised",
    "the exploration is exhaustive inside the stated bounds only; larger collections are covered by argument, not by search",
]
MODELS = (0, 1, 2)
LISTS = {"a": "E0,E1,E2", "b": "E3,E4,E5", "c": "E8,E9,E10"}
STD = -1  # std::allocator

O_RET, O_VIEWS, O_STAB, O_LIFE, O_CAP, O_REG = 1, 2, 4, 8, 16, 32

PROPS = {}


def prop(pid, level, plan, technique, note, bounds="", rule="", assumptions=None):
    PROPS[pid] = {"plan": plan, "level": level, "technique": technique, "note": note, "bounds": bounds, "rule": rule,
                  "assumptions": assumptions or ASSUME}


class Plan:
    """Collects builds and jobs."""

    def __init__(self):
        self.builds, self.jobs = {}, []

    def add(self, name, src, defs, args, asan=False, shards=1, cost=1, flags=()):
        self.builds.setdefault(name, {"src": src, "asan": asan, "defs": defs, "cost": cost, "flags": list(flags)})
        for i in range(shards):
            a = [str(x) for x in args]
            if shards > 1:
                a += ["--shard", str(i), "--nshards", str(shards)]
            self.jobs.append({"build": name, "args": a})

    def seq(self, m, l, oracles, args, asan=False, af=0, shards=1):
        self.add("seq%s%d%s%d" % ("s" if asan else "", m, l, af), "seq.cpp",
                 {"VF_MODEL": m, "VF_TYPES": LISTS.get(l, l), "VF_AF": af},
                 ["--oracles", oracles] + args, asan=asan, shards=shards, cost=2 if asan else 1)

    def pair(self, m, l, afs, args, asan=False, shards=1):
        self.add("pair%s%d%s%d" % ("s" if asan else "", m, l, len(afs)), "pair.cpp",
                 {"VF_MODEL": m, "VF_TYPES": LISTS.get(l, l), "VF_AFS": " ".join("X(%d)" % a for a in afs)},
                 args, asan=asan, shards=shards, cost=2 if asan else 1)

    def done(self):
        return self.builds, self.jobs


NOMIX = "shlrHLeEcp"


def scopes_for(tier):
    q = tier == "quick"
    sc = []
    # three types together, full alphabet
    sc.append((["--maxseg", 2, "--maxtotal", 3 if q else 4, "--reserves", 2], 1 if q else 6))
    # two types together, deeper
    for t in (3, 5, 6):
        sc.append((["--types", t, "--menu", NOMIX, "--maxseg", 3 if q else 4,
                    "--maxtotal", 4 if q else 6, "--reserves", "2,4", "--counts", "0,2"], 1))
    # one type, large segments, every position and count
    for t in (1, 2, 4):
        sc.append((["--types", t, "--menu", NOMIX, "--maxseg", 9 if q else 16,
                    "--maxtotal", 9 if q else 16, "--slack", 20,
                    "--reserves", "0,1,3,5,8" if q else "0,1,3,5,8,12,16",
                    "--counts", "0,1,2,3,5" if q else "0,1,2,3,4,5,6,7,9"], 1))
    # every pair of consecutive operations from every small shape
    for t in (1, 2, 4):
        sc.append((["--types", t, "--menu", NOMIX, "--maxseg", 2 if q else 3,
                    "--maxtotal", 2 if q else 3, "--lastop", "--reserves", 2], 1))
    return sc


def light(tier):
    """Smaller scopes, for further element types and for std::allocator."""
    q = tier == "quick"
    sc = [(["--maxseg", 2, "--maxtotal", 2 if q else 3, "--reserves", 2], 1)]
    for t in (1, 2, 4):
        sc.append((["--types", t, "--menu", NOMIX, "--maxseg", 5 if q else 9, "--maxtotal", 5 if q else 9, "--slack", 10,
                    "--reserves", "0,1,3,5", "--counts", "0,1,2,3"], 1))
    return sc


def spine(tier, types=(1, 2, 4), more=(), menu=NOMIX + "mM"):
    """Long segments: every size, natural and spare capacity, first/second/middle/last/end positions."""
    sizes = [(10, 18), (31, 33), (64, 65), (128, 128)] if tier == "quick" else [(10, 40), (63, 66), (127, 130)]
    if "--strong" not in more:
        sizes += [(256, 256)] if tier == "quick" else [(255, 257), (511, 513)]
    for t in types:
        for lo, hi in sizes:
            yield ["--mode", "spine", "--lo", lo, "--hi", hi, "--types", t, "--menu", menu, "--reserves", "0,12,30"] + list(more)


def seq_jobs(p, m, oracles, tier):
    for l in "ab":
        for a, sh in scopes_for(tier):
            p.seq(m, l, oracles, a, shards=sh)
        for a in spine(tier):
            p.seq(m, l, oracles, a)
    for a, sh in light(tier):
        p.seq(m, "c", oracles, a, shards=sh)
        p.seq(m, "a", oracles, a, af=STD, shards=sh)


def many_jobs(p, m, tier, *more):
    q = tier == "quick"
    p.add("many%d" % m, "many.cpp", {"VF_MODEL": m}, list(more))
    for k in (0, 12, 13, 28, 29):
        p.add("many%d" % m, "many.cpp", {"VF_MODEL": m}, ["--prefill", k, "--depth", 2 if q else 4] + list(more))
    wide_job(p, m, tier, *more)


def wide_job(p, m, tier, *more):
    p.add("many%d" % m, "many.cpp", {"VF_MODEL": m}, ["--wide", 6 if tier == "quick" else 7] + list(more))


def pmr_jobs(p, m, allocs, depth, shards=1, more=()):
    for a in allocs:
        p.add("pmr%d%d" % (m, a), "pmr.cpp", {"VF_MODEL": m, "VF_ALLOC": a}, ["--depth", depth] + list(more), shards=shards)


def seq_plan(oracles, extra=None):
    def f(tier):
        p = Plan()
        for m in MODELS:
            seq_jobs(p, m, oracles, tier)
            if extra:
                extra(p, m, tier)
        return p.done()
    return f


SEQ_BOUNDS_TXT = ("three element types, at most 3 (thorough: 4) elements with the full alphabet including mixed ranges; "
                  "two types, at most 4 (6) elements; one type, at most 9 (16) elements and every capacity, insertion "
                  "position and range length; every pair of consecutive operations from every shape of at most 2 (3) "
                  "elements; segments of 10 to 18, 31 to 33, 64, 65, 128 and 256 (10 to 40 and around 64, "
                  "128, 256 and 512) elements at first, second, middle, last and end positions with natural "
                  "and spare capacity; for base_, function_ and any_collection and two triples of element types (a third one "
                  "and std::allocator in smaller scopes); 6 (7) types with at most 2 elements each, all range erasures, range "
                  "insertions from another collection and whole-collection operations")
SEQ_TECH = ("explicit-state model checking of the real code: all reachable collection shapes within bounds, every "
            "operation overload and position executed from each, compared with a reference model")
SEQ_NOTE = ("Exhaustive within bounds; the reference model runs in lock step with the real collection, so every explored "
            "trace is validated against the implementation. Trusts the reference model, the element types of the "
            "harness and the bounds. ")



def x01(p, m, tier):
    q = tier == "quick"
    many_jobs(p, m, tier)
    p.add("cap%d" % m, "cap.cpp", {"VF_MODEL": m}, ["--nolimit", "--lim", 6 if q else 12, "--appends", 300, "--long", 3000])
    p.add("if%d" % m, "iface.cpp", {"VF_MODEL": m}, ["--depth", 3])
    p.add("fwd%d" % m, "fwd.cpp", {"VF_MODEL": m}, [])


def x02(p, m, tier):
    many_jobs(p, m, tier, "--ret")


def x03(p, m, tier):
    q = tier == "quick"
    many_jobs(p, m, tier, "--stab")
    p.pair(m, "a", (0, 7, 24), ["--maxn", 0, "--maxn1", 1] if q else ["--maxn", 1, "--maxn1", 1])


prop("C01", "model_checking", seq_plan(0, x01), SEQ_TECH,
     SEQ_NOTE + "Oracle: contents and order of every segment, sizes, registration and the global traversal equal the model's "
     "after each operation.", bounds=SEQ_BOUNDS_TXT)
prop("C02", "model_checking", seq_plan(O_RET, x02), SEQ_TECH,
     SEQ_NOTE + "Oracle: the iterator returned by each operation designates the modelled position and can be traversed from.",
     bounds=SEQ_BOUNDS_TXT)
prop("C03", "model_checking", seq_plan(O_VIEWS, x03), SEQ_TECH,
     SEQ_NOTE + "Oracle: complete cross-check of all views and the iterator algebra of each kind of iterator in every "
     "reached state.", bounds=SEQ_BOUNDS_TXT)


def c04(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        seq_jobs(p, m, O_STAB, tier)
        many_jobs(p, m, tier, "--stab")
        p.pair(m, "a", (0, 7, 24), ["--maxn", 1, "--maxn1", 1 if q else 2, "--shallow", "--iters"], shards=1 if q else 4)
        p.pair(m, "a", (0, 7, 24), ["--big", "--shallow", "--iters"] + ([] if q else ["--all"]))
    return p.done()


prop("C04", "model_checking", c04, SEQ_TECH,
     SEQ_NOTE + "Oracle: all iterators, pointers and addresses taken before the operation which the contract keeps valid are "
     "compared with fresh ones afterwards; for moves and swaps of whole collections on all pairs of small collections.",
     bounds=SEQ_BOUNDS_TXT + "; pairs of collections with at most 1 (2) elements per type and selected larger ones for moves "
     "and swaps, self-move and self-swap; registries of up to 34 types")


def c05(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        p.add("cap%d" % m, "cap.cpp", {"VF_MODEL": m}, ["--limit"])
        p.add("cap%d" % m, "cap.cpp", {"VF_MODEL": m}, ["--nolimit", "--lim", 8 if q else 14, "--appends", 2000 if q else 20000,
                                                       "--long", 300000 if q else 3000000])
        seq_jobs(p, m, O_CAP, tier)
        wide_job(p, m, tier, "--stab")
    return p.done()


prop("C05", "model_checking", c05, SEQ_TECH + "; every (size, capacity) up to the limit of a bounded allocator",
     SEQ_NOTE + "Oracle: capacity before and after each operation, length_error beyond max_size, unchanged contents on "
     "failure, no reallocation while elements fit, counted element moves and storage growths.",
     bounds=SEQ_BOUNDS_TXT + "; with an allocator limited to 40 elements every capacity boundary; append histories of 1000 "
     "(20000) elements")


def c06(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        seq_jobs(p, m, O_LIFE, tier)
        p.pair(m, "a", (0, 7, 24), ["--maxn", 1, "--maxn1", 1 if q else 2, "--alloc", "--shallow"], shards=1 if q else 4)
        p.pair(m, "b", (0,), ["--maxn", 0, "--maxn1", 1, "--shallow", "--alloc"], asan=True)
        pmr_jobs(p, m, (2,), 3)
        p.add("fwd%d" % m, "fwd.cpp", {"VF_MODEL": m}, [])
        for l in "ab":
            p.seq(m, l, O_LIFE, ["--maxseg", 2, "--maxtotal", 1 if q else 3, "--reserves", 2], asan=True,
                  shards=1 if q else 4)
            if not q:
                for t in (1, 2, 4):
                    p.seq(m, l, O_LIFE, ["--types", t, "--menu", NOMIX, "--maxseg", 6, "--maxtotal", 6, "--slack", 8,
                                         "--reserves", "0,1,3,6", "--counts", "0,1,2,3"], asan=True)
    return p.done()


prop("C06", "model_checking", c06, SEQ_TECH + ", with tracked object lifetimes and guarded memory",
     SEQ_NOTE + "Oracle: every element carries a life tag and its own address, objects constructed and destroyed through the "
     "allocator are counted, memory blocks are guarded, quarantined and accounted for; part of the space is repeated under "
     "the address sanitizer.",
     bounds=SEQ_BOUNDS_TXT + "; repeated under the address sanitizer for at most 1 (3) elements")

PAIR_TECH = ("explicit-state model checking of the real code: all pairs of small collections, every whole-collection "
             "operation and follow-up mutations, compared with a reference model")


def c07(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        for l in "ab":
            p.pair(m, l, (0, 7, 24), ["--maxn", 1, "--maxn1", 1])
            p.pair(m, l, (0, 7, 24), ["--maxn", 1, "--maxn1", 2] if not q else ["--maxn", 0, "--maxn1", 2])
            p.pair(m, l, (0, 7, 24), ["--big", "--shallow"] + ([] if q else ["--all"]))
            p.pair(m, l, (0, 7, 24), ["--maxn", 1, "--maxn1", 1, "--spare", "--shallow"])
            if not q:
                p.pair(m, l, (0, 7, 24), ["--maxn", 0, "--maxn1", 1, "--mutate", "--depth", 2], shards=6)
        pmr_jobs(p, m, (0,), 3 if q else 4, 1 if q else 8)
    return p.done()


prop("C07", "model_checking", c07, PAIR_TECH,
     "Exhaustive over pairs of collections within bounds; both collections are compared with their models through all views "
     "after each operation and after further mutations of either. Trusts the reference model and the bounds.",
     bounds="three types, each unregistered, registered, or with at most 1 or 2 elements, in both collections, both "
     "registration orders, equal and unequal allocators with three sets of propagation traits; thorough: two operations in "
     "sequence with mutations in between; selected larger pairs and pairs with spare capacity; polymorphic_allocator with "
     "every sequence of 3 (4) operations")


def c08(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        pmr_jobs(p, m, (0, 1, 2), 3 if q else 4, 1 if q else 8, ["--heap"])
        for l in "ab":
            for afs in ((0, 7, 24), (1, 2, 4, 16)):
                if q and l == "b" and len(afs) == 4:
                    continue
                p.pair(m, l, afs, ["--maxn", 1, "--alloc", "--shallow"])
                p.pair(m, l, afs, ["--big", "--alloc", "--shallow"] + ([] if q else ["--all"]))
                if not q:
                    p.pair(m, l, afs, ["--maxn", 1, "--maxn1", 2, "--alloc", "--shallow"], shards=4)
                    p.pair(m, l, afs, ["--maxn", 0, "--maxn1", 1, "--alloc", "--mutate", "--depth", 2, "--shallow"],
                           shards=8)
    return p.done()


prop("C08", "model_checking", c08, PAIR_TECH + " and a registry of every memory block and element by allocator",
     "Exhaustive over pairs of collections, operations and propagation traits within bounds; every block and element is "
     "traced to the allocator instance it came from. Trusts the registry of the harness and the bounds.",
     bounds="three types with at most 1 element each in both collections (thorough: 2, and two operations in sequence), seven "
     "combinations of propagation traits, equal and unequal allocators; selected larger pairs; polymorphic_allocator, "
     "scoped_allocator_adaptor and a minimal allocator with every sequence of 3 (4) operations")


def c09(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        p.add("eq%d" % m, "eq.cpp", {"VF_MODEL": m, "VF_TYPES": "E0,E1,E3"},
              ["--maxlen", 2, "--vals", 2, "--hist", 3, "--faults"])
        p.add("eqs%d" % m, "eq.cpp", {"VF_MODEL": m, "VF_TYPES": "E0"}, ["--maxlen", 5 if q else 7, "--vals", 2, "--hist", 3])
        p.add("eqo%d" % m, "eq.cpp", {"VF_MODEL": m, "VF_TYPES": "E11,E8"},
              ["--maxlen", 2, "--vals", 4, "--hist", 3, "--odd", "--faults"])
        wide_job(p, m, tier, "--eq")
        if not q:
            p.add("eq%d" % m, "eq.cpp", {"VF_MODEL": m, "VF_TYPES": "E0,E1,E3"},
                  ["--maxlen", 3, "--vals", 2, "--hist", 3], shards=8)
    return p.done()


prop("C09", "model_checking", c09, "explicit-state model checking of the real code: all pairs of small collections and build "
     "histories, == and != compared with the specification",
     "Exhaustive over pairs of collections and registration histories within bounds, including element comparisons that "
     "throw. Trusts the specification of equality in the harness and the bounds.",
     bounds="three types (one not comparable) with at most 2 (thorough: 3) elements of two values each, or one type with at "
     "most 5 (7) elements; two types with at most 2 elements of four values, with an equality that is not that of the bytes "
     "and not reflexive; three build histories per collection; collections of 6 (7) types with at most 2 elements each that "
     "differ in at most one type")

FAULT_TECH = ("systematic fault enumeration on the real code: from every reachable small state, every operation is run once "
              "per fault point (user operations and allocations), the state after each failure is checked exhaustively")


def c10(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        for l in "ab":
            p.seq(m, l, 0, ["--mode", "fault", "--maxseg", 2, "--maxtotal", 2 if q else 3, "--reserves", 2],
                  shards=2 if q else 8)
            for t in (1, 2, 4):
                p.seq(m, l, 0, ["--mode", "fault", "--types", t, "--menu", NOMIX, "--maxseg", 4 if q else 6, "--maxtotal",
                                4 if q else 6, "--slack", 8, "--reserves", "0,1,4", "--counts", "0,1,2,3"])
                n = 2 if q else 4
                p.seq(m, l, 0, ["--mode", "fault2", "--types", t, "--menu", "slcepELt", "--maxseg", n, "--maxtotal", n,
                                "--slack", 1, "--reserves", 3, "--counts", 2], shards=1 if q else 8)
            if not q:
                p.seq(m, l, 0, ["--mode", "fault2", "--menu", "slcept", "--maxseg", 1, "--maxtotal", 1, "--reserves", 2,
                                "--counts", "1,2"], shards=8)
                p.seq(m, l, 0, ["--mode", "fault", "--maxseg", 2, "--maxtotal", 2, "--reserves", 2], asan=True, shards=8)
        for l in "ab":
            for sh in (0, 1):
                p.pair(m, l, (0, 7, 24), ["--maxn", 0, "--maxn1", 1, "--alloc", "--faults", "--shallow"] + (["--spare"] if sh else []))
            p.pair(m, l, (0, 7, 24), ["--maxn", 1, "--maxn1", 1, "--alloc", "--faults", "--shallow", "--af", 0], shards=2)
            if not q:
                p.pair(m, l, (0, 7, 24), ["--maxn", 1, "--maxn1", 2, "--alloc", "--faults", "--shallow"], shards=8)
                p.pair(m, l, (0, 7, 24), ["--big", "--alloc", "--faults", "--shallow"], shards=8)
        p.seq(m, "c", 0, ["--mode", "fault", "--maxseg", 2, "--maxtotal", 1 if q else 3, "--reserves", 2])
        p.seq(m, "c", 0, ["--mode", "fault", "--types", 4, "--menu", NOMIX, "--maxseg", 4 if q else 6, "--maxtotal",
                          4 if q else 6, "--slack", 8, "--reserves", "0,1,4", "--counts", "0,1,2,3"])
        if q:
            p.seq(m, "a", 0, ["--mode", "fault", "--maxseg", 2, "--maxtotal", 1, "--reserves", 2], asan=True)
        pmr_jobs(p, m, (0, 1, 2), 2 if q else 3, 1 if q else 8, ["--fault"])
    return p.done()


prop("C10", "fault_enumeration", c10, FAULT_TECH,
     "Exhaustive over fault points, operations and states within bounds; after each failure all views, lifetimes and memory "
     "are checked and a set of further operations is executed; in smaller scopes every operation follows every failed one, "
     "itself failing at each of its fault points. At most two faults per history. Trusts the bounds and that the "
     "instrumented element types reach all places where user code can throw.",
     bounds="three types with at most 2 (3) elements and the full alphabet, one type with at most 4 (6) elements; two faults in "
     "succession: one type with at most 2 (4) elements (thorough also three types with at most 1); all pairs of "
     "collections with at most 1 (2) elements per type for whole-collection operations; elements constructed "
     "through the allocator (polymorphic and scoped allocators): all histories of 2 (3) operations; part under the address "
     "sanitizer",
     rule="one evaluation = one operation from one state with the n-th fault point made to throw (n increased until the "
     "operation completes); distinct_nontrivial counts distinct (operation, kind of fault, n) that actually fired")


def c11(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        for l in "ab":
            p.seq(m, l, 0, ["--mode", "fault", "--strong", "--menu", "shl", "--maxseg", 2, "--maxtotal", 3 if q else 4,
                            "--reserves", 2], shards=1 if q else 4)
            for t in (1, 2, 4):
                p.seq(m, l, 0, ["--mode", "fault", "--strong", "--types", t, "--menu", "shlr", "--maxseg", 8 if q else 17,
                                "--maxtotal", 8 if q else 17, "--slack", 20, "--reserves", "0,1,4,8"])
        p.seq(m, "c", 0, ["--mode", "fault", "--strong", "--types", 4, "--menu", "shlr", "--maxseg", 8 if q else 17,
                          "--maxtotal", 8 if q else 17, "--slack", 20, "--reserves", "0,1,4,8"])
        for l, ts in (("a", (1, 2, 4)), ("b", (1, 2, 4)), ("c", (4,))):
            for a in spine(tier, ts, ["--strong"], "shl"):
                p.seq(m, l, 0, a)
        pmr_jobs(p, m, (0, 1, 2), 2 if q else 3, 1 if q else 8, ["--fault", "--strong"])
    return p.done()


prop("C11", "fault_enumeration", c11, FAULT_TECH,
     "Exhaustive over fault points, single-element operations and states within bounds; contents after each failed append "
     "are compared with those before it. Trusts the bounds.",
     bounds="three types with at most 3 (4) elements, one type with at most 8 (17) elements and every capacity; segments of "
     "10 to 128 (130) elements; elements constructed through the allocator: all histories of 2 (3) operations",
     rule="one evaluation = one operation from one state with the n-th fault point made to throw; distinct_nontrivial counts "
     "distinct (operation, kind of fault, n) that actually fired")


def c12(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        for l in "ab":
            p.seq(m, l, O_REG, ["--maxseg", 1, "--maxtotal", 2 if q else 3, "--reserves", 2], shards=1 if q else 4)
        p.seq(m, "c", O_REG, ["--maxseg", 1, "--maxtotal", 2 if q else 3, "--reserves", 2])
        p.add("many%d" % m, "many.cpp", {"VF_MODEL": m}, [])
        for k in (0, 1, 12, 13, 14, 28, 29, 30):
            p.add("many%d" % m, "many.cpp", {"VF_MODEL": m}, ["--prefill", k, "--depth", 3 if q else 5])
        p.add("e7%d" % m, "e7.cpp", {"VF_MODEL": m}, [])
    return p.done()


prop("C12", "model_checking", c12, SEQ_TECH + "; all short operation sequences around every rehash of a registry of 34 types",
     "Exhaustive within bounds; every type-directed accessor is tried on every unregistered type in every state, lookups go "
     "through several type_info objects of the same type. Trusts the reference model and the bounds.",
     bounds="three types with at most 2 (3) elements and the full alphabet; up to 34 types with every sequence of 3 (5) "
     "operations from eight prefilled registries")


def alg(types):
    def f(tier):
        p = Plan()
        q = tier == "quick"
        ex = ["--types"] if types else []
        for m in MODELS:
            for part in (0, 1):
                d = {"VF_MODEL": m, "VF_PART": part}
                p.add("alg%d%d" % (m, part), "alg.cpp", d, ["--maxseg", 2, "--maxtotal", 4, "--needle", 3] + ex)
                # runs of empty segments between the others
                p.add("alg%d%d" % (m, part), "alg.cpp", d, ["--gaps", "--maxseg", 2, "--maxtotal", 4 if q else 5, "--needle", 2] + ex)
                # longer sequences, whole range only
                p.add("alg%d%d" % (m, part), "alg.cpp", d,
                      ["--maxseg", 7 if q else 9, "--maxtotal", 7 if q else 9, "--needle", 2, "--maxcount", 8, "--fullrange",
                       "--variants", 9 if q else 31] + ex, shards=2 if q else 16)
                if not q:
                    p.add("alg%d%d" % (m, part), "alg.cpp", d, ["--maxseg", 3, "--maxtotal", 6, "--needle", 3] + ex,
                          shards=8)
        return p.done()
    return f


ALG_BOUNDS = ("every distribution of at most 4 (6) elements of two values over three segments of at most 2 (3), every subrange, "
              "needles of at most 3 elements, five lists of restituted types, const and non-const iterators; the same with "
              "runs of empty segments in between; sequences of at most 7 (9) elements as a whole")
prop("C13", "model_checking", alg(False), "exhaustive enumeration of executions of the real algorithms over all small "
     "collections, subranges and arguments, compared with the standard algorithms",
     "Exhaustive within bounds; results, changes and call sequences are compared with the standard algorithm on an "
     "equivalent vector. Trusts libstdc++'s algorithms and the bounds.", bounds=ALG_BOUNDS)
prop("C14", "model_checking", alg(True), "exhaustive enumeration of executions of the real algorithms over all small "
     "collections, subranges and type lists, recording the static type and address of every argument",
     "Exhaustive within bounds; each argument a callable receives is compared with the static type, constness and address the "
     "type list implies. Trusts the bounds.", bounds=ALG_BOUNDS)


def c15(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        p.add("if%d" % m, "iface.cpp", {"VF_MODEL": m}, ["--depth", 4 if q else 5], shards=1 if q else 4)
        p.add("fwd%d" % m, "fwd.cpp", {"VF_MODEL": m}, [])
        p.add("ifs%d" % m, "iface.cpp", {"VF_MODEL": m}, ["--depth", 2 if q else 3], asan=True, shards=1)
    return p.done()


prop("C15", "model_checking", c15, "exhaustive enumeration of all short operation histories on the real code; every element is "
     "exercised through every abstract view after each history",
     "Exhaustive within bounds; four signatures and eleven kinds of callables, a concrete base with intermediate, multiply "
     "derived and final classes, and two concepts. Trusts the bounds.",
     bounds="every sequence of at most 4 (5) operations out of about 25 per family of element types; every combination of static "
     "type, dynamic type, registered types and insertion overload")


def c16(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        for i, tl in enumerate(("E0,E1,E3", "E0,E5,E2")):
            p.add("cst%d%d" % (m, i), "cst.cpp", {"VF_MODEL": m, "VF_TYPES": tl}, ["--maxn", 2 if q else 4],
                  shards=1 if q else 4, flags=["-Wl,-z,now"])
    return p.done()


prop("C16", "model_checking", c16, "explicit-state exploration of the real code under page protection: every const operation in "
     "every small state with all memory of the collection and the program read-only",
     "An operation that performs no store cannot race with another such operation, so write-freedom in every state decides all "
     "interleavings of const operations. Assumes that collections keep their state in memory obtained from their allocator, in "
     "the object itself or in static data; memory taken from malloc directly is not protected.",
     bounds="three types, each unregistered or with at most 2 (4) elements, five build histories, about 40 const operations")


def c17(tier):
    p = Plan()
    q = tier == "quick"
    for m in MODELS:
        p.add("al%d" % m, "alias.cpp", {"VF_MODEL": m}, ["--maxn", 6 if q else 12, "--faults"])
        p.add("als%d" % m, "alias.cpp", {"VF_MODEL": m}, ["--maxn", 3 if q else 6, "--faults"], asan=True)
    return p.done()


prop("C17", "model_checking", c17, "exhaustive enumeration on the real code of segment size, free capacity, source element, "
     "position and overload, with every fault point",
     "Exhaustive within bounds, half of it under the address sanitizer. Trusts the bounds.",
     bounds="segments of at most 6 (12) elements with 0 to 2 free places, every source element, every position, 19 overloads, six "
     "element types")
