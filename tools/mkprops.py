#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Ethash/Etchash results equal the Ethash specification",
  "For every 32-byte header hash, block height and nonce, the Ethereum and Ethereum Classic clients return exactly the mix hash and digest that the Ethash specification defines for the epoch containing that height, using that chain's epoch length, seed schedule and dataset parameters. This includes heights at and around epoch boundaries, the extremes of the nonce range, and datasets larger than 4 GiB.",
  ["inputs", "configurations"], "all hashes x heights x nonces, for both chains and for any DAG sizing",
  "three fixed vectors per chain; any other hash, nonce, epoch or dataset size is unsampled",
  ["ethash/ethash.go", "ethash/client.go", "internal/dag/dag.go", "internal/dag/generate.go", "internal/crypto/fnv.go", "internal/crypto/hasher.go"],
  [("hashimoto", "ethash/ethash.go"), ("light dataset item", "internal/dag/generate.go"), ("chain parameters", "ethash/client.go")],
  ["ethash.Client.Compute"])
p("C02", "KawPow results equal the KawPow specification",
  "For every 32-byte header hash, block height and nonce, the Ravencoin client returns exactly the mix hash and digest defined by the KawPow specification: ProgPoW with period 3 over a 512-parent light DAG of 7500-block epochs, with the RAVENCOINKAWPOW absorption constants in the initial and final permutation. This holds on both sides of every period and epoch boundary and over the full 64-bit height and nonce ranges that the configured epoch admits.",
  ["inputs", "configurations"], "all hashes x heights x nonces, any DAG sizing",
  "a handful of fixed vectors in a few epochs; periods, program seeds and nonces are infinite",
  ["kawpow/kawpow.go", "kawpow/client.go", "internal/progpow/algorithm.go", "internal/progpow/math.go", "internal/progpow/mixrng.go", "internal/progpow/kiss99.go", "internal/dag/dag.go", "internal/crypto/keccak.go"],
  [("initialize/finalize", "kawpow/kawpow.go"), ("ProgPoW loop", "internal/progpow/algorithm.go")],
  ["kawpow.Client.Compute"])
p("C03", "FiroPow results equal the FiroPow specification",
  "For every 32-byte header hash, block height and nonce, the Firo client returns exactly the mix hash and digest defined by the FiroPow specification: ProgPoW with period 1 over a 512-parent light DAG of 1300-block epochs starting at 1.5 GiB, with FiroPow's padding words in the initial and final permutation. This holds on both sides of every epoch boundary and over the full height and nonce ranges that the configured epoch admits.",
  ["inputs", "configurations"], "all hashes x heights x nonces, any DAG sizing",
  "fixed vectors only; each height selects a different random program",
  ["firopow/firopow.go", "firopow/client.go", "internal/progpow/algorithm.go", "internal/progpow/math.go", "internal/progpow/mixrng.go", "internal/dag/dag.go", "internal/crypto/keccak.go"],
  [("initialize/finalize", "firopow/firopow.go"), ("ProgPoW loop", "internal/progpow/algorithm.go")],
  ["firopow.Client.Compute"])
p("C04", "The shared ProgPoW engine implements ProgPoW for any parameters",
  "For every program seed (period number), header seed, dataset size, dataset lookup function, L1 cache and parameter set (period length, lanes, registers, rounds, cache and math operations per round), the shared ProgPoW engine returns the mix hash the ProgPoW specification defines. Each of its random math and merge operations agrees with the specification on every operand pair and selector, including zero, all-ones and rotation amounts of 0 and 31.",
  ["inputs", "configurations"], "all seeds, heights, dataset contents and engine parameters; all (a, b, selector) operand triples",
  "tests fix one parameter set and a few operand triples; degenerate operands practically never occur in a real hash",
  ["internal/progpow/algorithm.go", "internal/progpow/math.go", "internal/progpow/mixrng.go", "internal/progpow/kiss99.go", "internal/progpow/progpow094.go"],
  [("round / Hash", "internal/progpow/algorithm.go"), ("random math and merge", "internal/progpow/math.go"), ("register sequences", "internal/progpow/mixrng.go")],
  ["progpow.Hash"])
p("C05", "Octopus results equal the Conflux Octopus specification",
  "For every 32-byte header hash, block height and nonce, the Conflux client returns exactly the digest the Octopus specification defines: siphash-filled coefficient vector, polynomial evaluation in the field of order 1032193 at the points derived from the hash and nonce, and the 256-byte-page light-DAG mix with 2^19-block epochs. This includes every residue of the nonce modulo the warp size and hashes whose derived quadratic is degenerate.",
  ["inputs", "configurations"], "all hashes x heights x nonces, any DAG sizing",
  "three fixed vectors; nonce residues, degenerate coefficients and other epochs are unsampled",
  ["octopus/octopus.go", "octopus/client.go", "internal/crypto/siphash.go", "internal/crypto/fnv.go", "internal/dag/dag.go"],
  [("remap / computeC", "octopus/octopus.go"), ("multi-point evaluation", "octopus/octopus.go")],
  ["octopus.Client.Compute"])
p("C06", "Autolykos2 results equal the Ergo specification",
  "For every 32-byte message, nonce and block height, the Ergo client returns exactly the hit Autolykos v2 defines, including the growth schedule of the table size N with height (initial value up to the start height, one 5% step per period, constant from the last growth height on), the index derivation, and the fixed 32-byte encoding of the element sum before the final hash. The same holds for other client parameters k (1 to 32) and n (7 to 26) at heights up to the last growth height.",
  ["inputs", "configurations"], "all messages, nonces, heights; k in 1..32, n in 7..26",
  "nine N values and three hits; each schedule step, wrap of the index window and short sum is unsampled",
  ["autolykos2/autolykos2.go", "autolykos2/client.go", "internal/crypto/blake.go", "internal/common/convutil/convutil.go"],
  [("calcN", "autolykos2/autolykos2.go"), ("genIndexes", "autolykos2/autolykos2.go"), ("compute", "autolykos2/autolykos2.go")],
  ["autolykos2.Client.Compute"])
p("C07", "HeavyHash results equal the Kaspa specification and always terminate",
  "For every 32-byte pre-PoW hash other than all zeros, every signed timestamp and every nonce, the Kaspa client returns exactly the digest kHeavyHash defines: the first full-rank 64x64 nibble matrix from the hash-seeded generator, the cSHAKE256 pre- and post-hash, and the reversed byte order. For the all-zero hash, for which no such matrix exists, it returns an error instead of running forever.",
  ["inputs"], "all hashes, timestamps (including negative) and nonces",
  "three digests and three matrices; rank-deficient candidates and degenerate seeds are never reached",
  ["heavyhash/heavyhash.go", "heavyhash/matrix.go", "heavyhash/client.go", "internal/crypto/xoshiro256plusplus.go", "internal/crypto/shakehash.go"],
  [("newMatrix / calculateRank", "heavyhash/matrix.go"), ("heavyHash", "heavyhash/heavyhash.go")],
  ["heavyhash.Client.Compute"])
p("C08", "Eaglesong results equal the Nervos specification for every message length",
  "For every input byte string of any length, including empty, every length around a multiple of the 32-byte rate and inputs spanning many blocks, the Nervos client returns exactly the 32-byte Eaglesong digest defined by Nervos RFC 0010.",
  ["inputs"], "all byte strings of all lengths",
  "one or two fixed inputs; padding depends on the length modulo the rate and word size",
  ["eaglesong/eaglesong.go", "eaglesong/eaglesong_constants.go", "eaglesong/client.go"],
  [("absorb / squeeze", "eaglesong/eaglesong.go"), ("permutation and constants", "eaglesong/eaglesong_constants.go")],
  ["eaglesong.Client.Compute"])
p("C09", "Equihash accepts every valid solution",
  "For every supported parameter set (the ZCash, Bitcoin Gold, ZClassic and Aion clients, and other (n, k, personalization) choices), every header of any length and every solution that satisfies the Equihash rules (minimal encoding, a k-bit-segment collision at each tree level, ordered subtrees, distinct indices, zero final XOR), verification returns true with no error.",
  ["inputs", "configurations"], "all headers and all valid solutions, over parameter sets",
  "one valid (96,5) solution is tested for the untwisted variant; no named coin except Flux is exercised",
  ["equihash/equihash.go", "equihash/client.go", "internal/crypto/blake.go"],
  [("verify", "equihash/equihash.go"), ("index unpacking", "equihash/equihash.go"), ("coin parameters", "equihash/client.go")],
  ["equihash.Client.Verify"])
p("C10", "Equihash rejects every invalid solution",
  "Verification never returns true for a solution that breaks an Equihash rule: a missing collision in any bit of any tree level, a non-zero final XOR, subtrees out of order at any level, an index repeated anywhere in the solution, a wrong encoded length, or a header other than the one solved for. Such input yields false, with or without an error.",
  ["inputs", "configurations"], "all (header, solution) pairs, especially near-misses breaking exactly one rule at one place",
  "no test presents an invalid solution to the verifier",
  ["equihash/equihash.go", "equihash/client.go"],
  [("validateSubtrees", "equihash/equihash.go"), ("final zero test", "equihash/equihash.go"), ("length test", "equihash/equihash.go")],
  ["equihash.Client.Verify"])
p("C11", "ZelHash (twisted Equihash 125,4) decides validity exactly",
  "For every header and solution, the Flux client returns true exactly when the solution satisfies the twisted Equihash (125,4) rules: leaf hashes are cumulative sums of the Blake2b outputs of their 16-aligned group with the three spare bits of each 16-byte row cleared, then the ordinary collision, order, distinctness and zero-XOR rules. The same holds for the other k usable with n = 125.",
  ["inputs", "configurations"], "all (header, solution) pairs, over twisted parameter sets",
  "one valid Flux solution is tested and no invalid one",
  ["equihash/equihash.go", "equihash/client.go"],
  [("generateHash twist", "equihash/equihash.go"), ("expandArray 25/26 bits", "equihash/equihash.go")],
  ["equihash.Client.Verify"])
p("C12", "BeamHash III decides validity exactly",
  "For every 40-byte header and 104-byte solution, the Beam client returns true exactly when the solution satisfies the BeamHash III rules: indices and extra nonce unpacked from the solution, siphash work bits, the mix applied before each round's 24-bit collision, ordered and distinct indices, and zero final work bits. Any change to one bit of the header, an index or the extra nonce of a valid solution, any swap of subtrees and any repeated index is rejected.",
  ["inputs"], "all (header, solution) pairs, especially near-misses",
  "three valid solutions with a zero extra nonce; no invalid solution is tested",
  ["beamhashiii/beamhashiii.go", "beamhashiii/client.go", "internal/crypto/siphash.go"],
  [("verify rounds", "beamhashiii/beamhashiii.go"), ("applyMix", "beamhashiii/beamhashiii.go"), ("validateSubtrees", "beamhashiii/beamhashiii.go")],
  ["beamhashiii.Client.Verify"])
p("C13", "Cuckoo Cycle accepts exactly single cycles of sorted in-range edges",
  "For every header and list of edge indices, a Cuckoo Cycle client (Aeternity, and any edge-bits, proof-size and siphash choice) returns true exactly when the list has the configured length, every index is within the edge range, the indices are strictly ascending, and the edges they select in the header-keyed bipartite graph form one single cycle of that length. Every permutation, repetition, branch, dead end, disjoint union of shorter cycles or out-of-range index is rejected with an error.",
  ["inputs", "configurations"], "all headers and edge lists, over graph sizes and proof sizes",
  "three valid proofs are tested and no invalid one",
  ["cuckoo/cuckoo.go", "cuckoo/client.go", "cuckoo/errors.go", "internal/crypto/siphash.go"],
  [("range, order, endpoint XOR and cycle walk", "cuckoo/cuckoo.go"), ("siphash keys", "cuckoo/client.go")],
  ["cuckoo.Client.Verify"])
p("C14", "Cuckaroo accepts exactly single cycles of sorted in-range edges",
  "For every header and list of edge indices, a Cuckaroo client (Cortex, and any edge-bits, proof-size and block-siphash choice) returns true exactly when the list has the configured length, every index is within the edge range, the indices are strictly ascending, and the edges they select form one single cycle of that length. Edge endpoints come from the block-buffered siphash-4-8 (64-edge blocks, each output before the last XORed with it) of the header-derived keys.",
  ["inputs", "configurations"], "all headers and edge lists, over graph sizes and proof sizes; all positions in an edge block",
  "three valid proofs are tested and no invalid one",
  ["cuckoo/cuckaroo.go", "cuckoo/client.go", "internal/crypto/siphash.go"],
  [("range, order, endpoint XOR and cycle walk", "cuckoo/cuckaroo.go"), ("sipblock", "internal/crypto/siphash.go")],
  ["cuckoo.Client.Verify"])
p("C15", "Malformed input is refused cleanly by every algorithm",
  "Every public Compute or Verify call on a supported coin client returns (no crash, no hang) for byte slices and index lists of any length and content, nil and empty included. Input of the wrong length (a hash or message that is not 32 bytes, a Beam header or solution, an Equihash solution or a Cuckoo edge list of the wrong size) gives a non-nil error and no result or acceptance, and input of the right length given to a hash function never gives an error (except the all-zero HeavyHash seed).",
  ["inputs"], "all byte strings and index lists of any length, for each client",
  "no test passes a malformed input",
  ["ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go", "autolykos2/client.go", "heavyhash/client.go", "beamhashiii/client.go", "equihash/equihash.go", "cuckoo/client.go", "eaglesong/client.go"],
  [("length checks", "*/client.go"), ("solution length check", "equihash/equihash.go")],
  ["Compute and Verify of every package"])
p("C16", "Calls are pure: results depend only on arguments, inputs stay intact",
  "For every client, repeating a call with equal arguments gives equal results whatever calls (valid or invalid, on this or another client of any coin) happened in between. No call modifies the caller's slices or the memory behind their spare capacity, and no returned slice shares memory with the inputs or with later results.",
  ["inputs", "histories"], "all interleaved call sequences over all clients and arguments",
  "tests call each client once per vector and never look at the inputs or earlier results again",
  ["ethash/ethash.go", "kawpow/kawpow.go", "firopow/firopow.go", "octopus/octopus.go", "autolykos2/autolykos2.go", "heavyhash/heavyhash.go", "eaglesong/eaglesong.go", "equihash/equihash.go", "beamhashiii/beamhashiii.go", "cuckoo/cuckoo.go", "internal/crypto/hasher.go"],
  [("copies before append", "autolykos2/autolykos2.go"), ("per-call state", "internal/crypto/hasher.go")],
  ["all public clients"])
p("C17", "Cache and dataset sizes follow the size formula at every epoch",
  "For every DAG coin and every epoch, the cache size and dataset size in use are the largest sizes not above the coin's linear schedule (initial + growth x epoch, less one row) whose row count is prime, whether they come from the committed tables or are computed, with no gap, crash or discontinuity where the tables end. Each is a whole number of rows.",
  ["inputs", "configurations"], "all epochs 0..2047 and beyond, for Ethereum, Ethereum Classic, Ravencoin, Firo and Conflux",
  "ten epochs of one coin are tested through the formula; the committed tables are never checked",
  ["internal/dag/dag.go", "internal/dag/config.go", "ethash/ethash_lookup.go", "kawpow/kawpow_lookup.go", "firopow/firopow_lookup.go", "octopus/octopus_lookup.go", "ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go"],
  [("size tables", "*_lookup.go"), ("calcCacheSize / calcDatasetSize", "internal/dag/dag.go")],
  ["dag.CacheSize", "dag.DatasetSize"])
p("C18", "Heights map to epochs and seed hashes as each chain defines",
  "For every DAG coin and every height, the epoch is the height divided by the chain's epoch length, and the seed hash used for that epoch is the Keccak-256 iterate of 32 zero bytes, applied once per seed epoch completed at the epoch's first block (twice per epoch for Ethereum Classic, once otherwise). All heights of one epoch share one seed, and different epochs have different seeds.",
  ["inputs", "configurations"], "all heights and epochs, for each coin",
  "seven heights and six seeds of one coin are tested",
  ["internal/dag/dag.go", "internal/dag/cache.go", "ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go"],
  [("CalcEpoch / SeedHash", "internal/dag/dag.go"), ("seed choice", "internal/dag/cache.go")],
  ["dag.CalcEpoch", "dag.SeedHash", "dag.GetCache"])
p("C19", "Verification cache, L1 cache and dataset items equal the specification",
  "For every epoch and DAG configuration (sizes, cache rounds, parents per item, L1 on or off), the verification cache, the L1 cache and every 64-, 128- and 256-byte dataset item served by the library equal those of the Ethash light-client specification with those parameters. This includes item indices up to the 32-bit limit and caches of every row count.",
  ["inputs", "configurations"], "all epochs, configurations and item indices",
  "two cache hashes and two items of real epochs, and 1 KiB caches of two epochs, are tested",
  ["internal/dag/generate.go", "internal/dag/cache.go", "internal/dag/dag.go", "internal/common/bitutil/xor_amd64.go", "internal/crypto/fnv.go"],
  [("generateCache / generateL1Cache", "internal/dag/generate.go"), ("generateDatasetItem", "internal/dag/generate.go"), ("lookups", "internal/dag/dag.go")],
  ["dag.GetCache", "dag.NewLookupFunc512/1024/2048"])
p("C20", "Where caches are stored never changes a result",
  "For every configuration and sequence of heights, results are identical whether caches are kept in memory, freshly written to the storage directory, memory-mapped back from a previous run, locked in memory or not, or created because the directory did not exist. A cache already complete on disk is reused rather than regenerated, and what is written there is the same for every run.",
  ["configurations", "histories"], "all storage modes x call and restart sequences",
  "tests run one mode against whatever ~/.powcache holds",
  ["internal/dag/cache.go", "internal/dag/mmap.go", "internal/dag/dag.go"],
  [("load or generate", "internal/dag/cache.go"), ("memory map", "internal/dag/mmap.go")],
  ["Compute of every DAG coin", "files in the storage directory"])
p("C21", "Damaged cache files are detected, never used and never crash",
  "Whenever a file in the storage directory that stands where a cache or L1 cache would be is empty, shorter or longer than a complete one, lacks the magic header, or is not a readable regular file, calls neither crash nor return a wrong result: they behave as if that file were absent, and a damaged regular file is replaced by a complete one. Silent corruption of the payload of a correctly sized file with an intact header is outside this guarantee.",
  ["inputs", "fault_sequences"], "all truncations, extensions, header corruptions and file-type substitutions of each cache file",
  "no test starts from a damaged file",
  ["internal/dag/mmap.go", "internal/dag/cache.go"],
  [("magic and size check", "internal/dag/mmap.go"), ("regeneration", "internal/dag/cache.go")],
  ["Compute after damage", "files in the storage directory"])
p("C22", "An interrupted process never leaves a cache that is trusted but incomplete",
  "If the process is killed at any moment while caches are being generated, the files it leaves under their final names are complete and correct, and the next process using that storage directory returns correct results. Incomplete data only ever exists under other names.",
  ["crash_points"], "all kill points during generation and all directory states visible during it",
  "no test interrupts generation",
  ["internal/dag/mmap.go", "internal/dag/cache.go"],
  [("write to temporary file, then rename", "internal/dag/mmap.go")],
  ["storage directory at each instant", "Compute after restart"])
p("C23", "Storage failures fall back to memory with correct results",
  "When the storage directory cannot be created, opened, written, extended, renamed into, or its files cannot be opened, mapped or found again, every call still returns the correct result, for the cache and the L1 cache independently and for later calls as well. A failed attempt leaves no temporary file behind.",
  ["fault_sequences"], "all kinds and moments of storage failure, per file and per epoch",
  "no test injects a storage failure",
  ["internal/dag/cache.go", "internal/dag/mmap.go"],
  [("in-memory fallback", "internal/dag/cache.go"), ("error returns", "internal/dag/mmap.go")],
  ["Compute under storage failure"])
p("C24", "Concurrent calls on a shared client equal sequential calls",
  "For any number of goroutines calling one client at the same time, over any mix of epochs (same epoch, adjacent epochs being pre-generated, more epochs than are retained) and while caches are evicted and garbage collected, every call returns exactly what it would return alone, no call crashes or deadlocks, and there is no data race.",
  ["schedules", "histories"], "all schedules of concurrent calls over epochs, with eviction and garbage collection",
  "no test calls a client from two goroutines",
  ["internal/dag/dag.go", "internal/dag/cache.go", "internal/crypto/hasher.go", "ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go"],
  [("epoch map mutex", "internal/dag/dag.go"), ("once per cache", "internal/dag/cache.go"), ("keep-alive until the hash is done", "*/client.go")],
  ["Compute from many goroutines"])
p("C25", "Clients and processes can share one storage directory",
  "Any number of clients, of the same or different coins, in one or several processes, may use one storage directory at the same time, start on the same missing epoch together and clean up behind one another: every call of each returns the correct result, and every file left under a final name is complete and correct for its coin and epoch.",
  ["schedules", "histories"], "all interleavings of clients and processes on one directory",
  "the tests are run one package at a time precisely because they share the directory",
  ["internal/dag/mmap.go", "internal/dag/cache.go", "internal/dag/dag.go"],
  [("unique temporary names and rename", "internal/dag/mmap.go"), ("names by coin, revision and seed", "internal/dag/dag.go")],
  ["Compute from several processes", "files in the storage directory"])
p("C26", "Cache retention is bounded, LRU, and deletes only its own stale files",
  "A client keeps at most its configured number of epochs in memory, evicting the least recently used one, serves a retained epoch without regenerating it, and pre-generates the next epoch so that moving forward reuses it. On disk, generating an epoch removes the coin's own cache and L1 files exactly for epochs older than the retention window and never removes or alters any other file: newer epochs, other coins, other revisions or foreign files.",
  ["histories", "configurations"], "all sequences of epoch requests (forward, backward, jumps), for any retention count",
  "no test looks at eviction or at the directory contents",
  ["internal/dag/dag.go", "internal/dag/cache.go"],
  [("evict and future slot", "internal/dag/dag.go"), ("delete old epochs", "internal/dag/cache.go")],
  ["dag.GetCache", "files in the storage directory"],
  [("caches", "epochs held in memory", "internal/dag/dag.go"), ("future", "pre-generated next epoch", "internal/dag/dag.go")])
p("C27", "Hash primitives equal their published definitions on every input",
  "Keccak-256/512, Keccak-f[800], SipHash-2-4 and -4-8 (single, block and legacy-rotated forms), xoshiro256++, FNV-1 and FNV-1a (32- and 64-bit), personalised Blake2b and cSHAKE256 as exposed to the algorithms, and the byte-wise XOR used in cache generation, agree with their published definitions for all inputs, states, lengths, alignments and (for XOR) operands of unequal length or a destination that is one of the operands. Reusing a hasher object never carries state from one call to the next.",
  ["inputs", "histories"], "all inputs, states and lengths; all reuse sequences of a hasher",
  "a few vectors per primitive; keccak, blake2b and cSHAKE wrappers have none",
  ["internal/crypto/keccak.go", "internal/crypto/hasher.go", "internal/crypto/siphash.go", "internal/crypto/xoshiro256plusplus.go", "internal/crypto/fnv.go", "internal/crypto/blake.go", "internal/crypto/shakehash.go", "internal/common/bitutil/xor_amd64.s", "internal/common/convutil/convutil.go"],
  [("primitives", "internal/crypto/*.go"), ("vector XOR", "internal/common/bitutil/xor_amd64.s")],
  ["exported functions of internal/crypto, bitutil, convutil"])
p("C28", "The lookup generator emits complete, correct tables",
  "For every package name, epoch count and size parameters, the table generator writes a Go file that compiles and holds exactly one cache size and one dataset size per requested epoch, each equal to the size formula. Running it with the parameters recorded for each coin reproduces the values of the committed tables.",
  ["inputs", "configurations"], "all epoch counts (in particular not multiples of the row width) and size parameters",
  "the generator has no tests",
  ["cmd/gen-lookup/main.go", "ethash/client.go", "kawpow/client.go", "firopow/client.go", "octopus/client.go", "ethash/ethash_lookup.go"],
  [("table formatting", "cmd/gen-lookup/main.go"), ("go:generate parameters", "*/client.go")],
  ["cmd/gen-lookup output file"])
p("C29", "Evicted and failed caches release their mappings and open files",
  "Whatever calls a process makes on its clients - forward, backward and jumping heights, damaged files found in the storage directory, system calls on it that fail - once the caches that are no longer retained have been garbage collected, the process holds open files and memory mappings below the storage directory only for epochs its clients retain (the prepared next one included), each at most once per cache file; none remain when the clients are gone. No mapping is released while a call still uses it.",
  ["histories", "fault_sequences"], "all sequences of calls, damage and failures, over any number of clients",
  "no test evicts a cache, closes a mapping or looks at the process's resources",
  ["internal/dag/cache.go", "internal/dag/mmap.go", "internal/dag/dag.go"],
  [("finalizer that unmaps and closes", "internal/dag/cache.go"), ("unmap and close on each error path", "internal/dag/mmap.go")],
  ["/proc/self/fd and /proc/self/maps after eviction and collection", "Compute results"])
p("C30", "Results do not depend on the target powkit is built for",
  "On every little-endian target powkit builds for, all calls give the results they give on plain 64-bit x86 (as far as a cache fits the address space): on 32-bit targets, where int and pointers are half as wide and the portable XOR replaces the vector kernels, and on targets whose compiler fuses floating-point multiplications and additions. Caches made on one can be used by the other.",
  ["inputs", "configurations"], "all inputs of all clients and primitives, per build target",
  "the tests only ever run on the developer's target",
  ["internal/common/bitutil/xor_generic.go", "internal/common/bitutil/xor_amd64.s", "internal/common/convutil/convutil.go", "internal/dag/generate.go", "internal/dag/mmap.go", "heavyhash/matrix.go", "equihash/equihash.go", "cuckoo/cuckoo.go", "autolykos2/autolykos2.go"],
  [("portable XOR", "internal/common/bitutil/xor_generic.go"), ("fixed-width arithmetic", "all packages"), ("float rank computation", "heavyhash/matrix.go")],
  ["results of every client and primitive in a binary for the other target"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(d) + "\n" for d in P))
