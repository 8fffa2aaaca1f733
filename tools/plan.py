"""Which test binaries decide which property."""


def u(area, run, **kw):
    return dict(dict(name=area, pkg="internal/zzverif/" + area, run="^Test" + run + "$"), **kw)


def other(area, run, target, scale, **goenv):
    """The same tests in a binary for another target, with a part of the cases."""
    return dict(u(area, run), name=area + target, goenv=goenv, shards=4,
                env=dict(VH_PREFIX=target + ":", VH_SCALE=str(scale), VH_UNIT=target))


PLAN = {
    "C01": dict(units=[u("pow", "C01")]),
    "C02": dict(units=[u("pow", "C02")]),
    "C03": dict(units=[u("pow", "C03")]),
    "C04": dict(units=[u("pow", "C04")]),
    "C05": dict(units=[u("pow", "C05")]),
    "C06": dict(units=[u("hash", "C06")]),
    "C07": dict(units=[u("hash", "C07")]),
    "C08": dict(units=[u("hash", "C08")]),
    **{c: dict(units=[u("verify", c)]) for c in ("C09", "C10", "C11", "C12", "C13", "C14")},
    "C15": dict(units=[u("api", "C15")]),
    "C16": dict(units=[u("api", "C16")]),
    **{c: dict(units=[u("store", c)]) for c in ("C20", "C21", "C22", "C23", "C25", "C26", "C29")},
    "C24": dict(units=[dict(u("conc", "C24"), shards=4, env=dict(VH_UNIT="plain")),
                       dict(u("conc", "C24"), name="concrace", race=True, shards=4, env=dict(VH_UNIT="race")),
                       dict(u("api", "C24"), name="apirace", race=True, shards=4)]),
    "C28": dict(units=[u("gen", "C28")], tools={"gen-lookup": "cmd/gen-lookup"}),
    "C27": dict(units=[u("hash", "C27")]),
    "C17": dict(units=[u("pow", "C17")]),
    "C18": dict(units=[u("pow", "C18")]),
    "C19": dict(units=[u("pow", "C19")]),
    # the other properties' generators and oracles, built for other targets
    "C30": dict(units=[other(a, r, "386", s, GOARCH="386") for a, r, s in (
        ("pow", "C(01|02|03|04|05|17|18|19)", .14), ("hash", "C(06|07|08|27)", .15), ("verify", "C(09|10|11|12|13|14)", .08),
        ("api", "C(15|16)", .2), ("conc", "C24", .15), ("gen", "C28", .15))] +
        [other(a, r, "v3", s, GOAMD64="v3") for a, r, s in (
            ("hash", "C(06|07|08|27)", .3), ("pow", "C(04|05)", .1))],
        tools={"gen-lookup": ("cmd/gen-lookup", dict(GOARCH="386"))}),
}

_REF = "The reference model in harness/ref is trusted; it reproduces the published vectors."
_CHILD = "Children are separate processes over a scratch directory; in-memory results are the oracle."

NOTES = {
    "C01": ("property-based differential testing against a reference Ethash",
            "Random search over hashes, heights, nonces, epochs and DAG sizings (shrunken and the coins' own). " + _REF),
    "C02": ("property-based differential testing against a reference KawPow",
            "Random search over hashes, heights, nonces, epochs and DAG sizings (shrunken and the coin's own). " + _REF),
    "C03": ("property-based differential testing against a reference FiroPow",
            "Random search over hashes, heights, nonces, epochs and DAG sizings (shrunken and the coin's own). " + _REF),
    "C04": ("property-based differential testing against a reference ProgPoW engine, inputs solved backwards to reach rare operands",
            "Random parameter sets, seeds and lookup functions; half of the cases steer one chosen operation onto chosen operands. " + _REF),
    "C05": ("property-based differential testing against a reference Octopus",
            "Random search over hashes, heights, nonces and DAG sizings. " + _REF),
    "C06": ("property-based differential testing against a big-integer reference Autolykos2",
            "Random messages, nonces, heights around every growth step, other (n, k). " + _REF),
    "C07": ("property-based differential testing against an exact-rank reference kHeavyHash, termination by CPU limit",
            "Random, structured and mined hashes (determinants divisible by chosen primes, tiny pivots). Matrices of rank below 64 at the first draw are too rare to generate. " + _REF),
    "C08": ("property-based differential testing against a reference Eaglesong",
            "Random messages of every length around rate multiples. " + _REF),
    "C09": ("property-based testing: solutions constructed by a reference solver, plus independently solved vectors for the coins' own parameters",
            "Solved instances for small (n, k) are generated per case; the coins' full-size instances come from data/vectors.jsonl."),
    "C10": ("property-based testing with a reference decision procedure on solutions broken in exactly one rule",
            "Near-misses at each tree level are built by the solver; full-size near-misses come from data/vectors.jsonl."),
    "C11": ("property-based differential testing against a reference twisted-Equihash verifier",
            "Valid, one-rule-broken and mutated solutions, several k for n = 125."),
    "C12": ("property-based differential testing against a reference BeamHash III verifier",
            "Valid and near-miss solutions from data/vectors.jsonl, mutated per case; equal sibling subtrees stand for duplicate indices."),
    "C13": ("property-based differential testing against a graph reference, with planted cycles (siphash inverted) and real ones found by trimming",
            "Graphs and edge lists of many shapes: cycles, unions of cycles, branches, dead ends, permutations, repeats, ranges."),
    "C14": ("property-based differential testing against a graph reference, with planted and real cycles",
            "As C13, for block-buffered siphash edges."),
    "C15": ("property-based robustness testing of every public call, CPU and memory limits as hang oracle",
            "Inputs of every length and content, nil included; expected refusal or result per length rule."),
    "C16": ("stateful property-based testing: call histories, metamorphic repeat, canaries around inputs",
            "Histories over clients of all coins; results compared with fresh clients, inputs and spare capacity compared byte for byte."),
    "C17": ("property-based testing against a size formula with a deterministic primality test",
            "Whole committed tables plus random epochs far past them, all coins and random linear schedules."),
    "C18": ("property-based testing against the seed and epoch definition",
            "Random and boundary heights; seeds compared with an independent Keccak iterate."),
    "C19": ("property-based differential testing against a reference light client (cache, L1, items)",
            "Random sizes, rounds, parents, item widths and indices. " + _REF),
    "C20": ("stateful property-based testing: same history under many storage configurations, in-memory client as oracle",
            _CHILD + " Configurations: fresh, reused, locked or not, RLIMIT_MEMLOCK 0, missing directory."),
    "C21": ("property-based fault injection: generated damage to stored files, in-memory client as oracle",
            _CHILD + " Damage: truncation, extension, headers, directories, links, sockets, FIFOs, permissions."),
    "C22": ("property-based crash injection: the process is killed at a generated system call or time",
            _CHILD + " seccomp kills at the n-th matching call; files left are compared with those of undisturbed runs."),
    "C23": ("property-based fault injection: generated system-call errors, full file systems, limits and permissions",
            _CHILD + " seccomp errno filters, tmpfs quotas, RLIMITs and unprivileged users."),
    "C24": ("randomised concurrent property-based testing, sequential results as oracle, with and without the race detector",
            "Schedules come from the Go scheduler and generated pauses, not from an exhaustive model; the race detector widens what one schedule shows."),
    "C25": ("randomised multi-process property-based testing over one shared directory",
            _CHILD + " Start offsets, seeds (equal seeds included) and coins are generated; the OS schedules."),
    "C26": ("model-based stateful property-based testing of memory and disk retention",
            "A reference LRU and file-set model steps along with the client; freed caches are seen through weak pointers and files."),
    "C27": ("property-based differential testing of each primitive against an independent implementation",
            "Random inputs over lengths, alignments and edge words. " + _REF),
    "C28": ("property-based testing of the table generator: output parsed, compiled and compared with the size formula",
            "Random parameters plus the recorded ones of each coin."),
    "C29": ("property-based fault injection: histories with damaged files and failing system calls, open files and mappings counted",
            _CHILD + " Open descriptors and mapped regions below the directory are read from /proc/self after eviction and collection."),
    "C30": ("property-based differential testing in binaries for other targets (32-bit x86 with the portable kernels, x86-64-v3 with fused multiply-add)",
            "The generators and oracles of the other properties run in cross-compiled binaries; ARM and big-endian machines cannot be run here."),
}

NOT_APPLICABLE = {}

ASSUME = {
    "*": ["the reference models in harness/ref, written from the published specifications, are right; they are validated against the repository's known-answer vectors"],
}
