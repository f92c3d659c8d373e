#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A rejected block leaves no trace",
  "Importing a block that fails for any reason (bad header, bad extrinsic, failing execution) leaves the committed chain state, its root, the best-known header and the outcome of every later import exactly as if the block had never been offered. In particular a valid block for the same parent offered right after any number of rejected ones is accepted and yields the same state root as on a node that never saw them.",
  ["histories", "fault_sequences"],
  "every interleaving of invalid and valid blocks over every reachable chain state, for every stage at which a block can fail",
  "The existing tests import hand-made valid blocks and vectors on a fresh node; no test continues on the same node after a failure at an arbitrary stage and compares with a node that never saw the failure.",
  ["node/src/roles/importer.rs", "node/src/roles/executor.rs", "state/src/manager.rs", "state/src/cache.rs"],
  [("rollback of the dirty state cache on import failure", "node/src/roles/importer.rs"), ("clean/dirty cache entries", "state/src/cache.rs")],
  observe=["import result", "all committed state entries", "state root", "best header"])

p("C02", "Only headers that satisfy every header rule are imported",
  "A block is imported only if its parent is the known parent, its prior state root equals the parent's posterior root, its extrinsic commitment matches its body, its slot is strictly later than its parent's, its author index denotes an active validator, its seal proves that this author owned the slot (winning ticket, or fallback key when the series is in fallback), its entropy signature is derived from that seal, and its epoch, tickets and offenders markers are exactly those the state transition calls for. A block that meets all of these and has valid contents is imported.",
  ["inputs", "histories"],
  "every header field and signature mutation of an otherwise valid block, at every epoch/slot position, in both ticket and fallback sealing modes",
  "Vectors contain a few hand-picked header mutations; the combination (field, mode, epoch position, who signs) cannot be enumerated by them, and an accepted-but-invalid header is invisible to tests that only import valid blocks.",
  ["node/src/roles/importer.rs", "block/src/types/block.rs", "transition/src/state/safrole.rs"],
  [("validate_block_header chain of checks", "node/src/roles/importer.rs"), ("marker computation", "node/src/roles/executor.rs")],
  observe=["import result for each mutated block"])

p("C03", "The state root commits to exactly the current key/value state",
  "After any sequence of state additions, updates and removals the reported state root equals the Merkle root of the resulting key/value map as the protocol defines it (31-byte keys, bitwise binary trie, embedded or hashed leaves). It therefore depends only on the resulting contents, never on the order, batching or history of the operations that led there.",
  ["histories", "inputs"],
  "every sequence of batched add/update/remove operations with every key-prefix sharing pattern and value length around the embedding limit",
  "Fixed vectors and one randomized test exercise few prefix-sharing/removal shapes; the property needs every history that reaches the same map to give one root.",
  ["state/src/merkle_interface/manager.rs", "state/state-merkle-v2/src/merkle_db.rs", "state/state-merkle-v2/src/types.rs", "state/src/manager.rs"],
  [("incremental trie update with merkle change set", "state/src/merkle_interface/manager.rs"), ("leaf encoding", "state/state-merkle-v2/src/types.rs")],
  observe=["state root", "merkle lookups"])

p("C04", "State reads see exactly the latest write or the last commit",
  "A read through the state store returns the latest uncommitted write or removal of that key if there is one, else the last committed value, else nothing; a clean read ignores uncommitted changes. Rolling back discards exactly the uncommitted changes, committing makes exactly them durable, and the provisional root computed before a commit equals the root after it.",
  ["histories"],
  "every interleaving of add/update/remove/read/clean-read/provisional-root/commit/rollback over a set of keys, in raw and typed form, including reads served from the database after the cache was dropped",
  "Unit tests check single operations and one or two pairs; stale-cache defects need sequences of several operations across commits and rollbacks.",
  ["state/src/manager.rs", "state/src/cache.rs", "state/src/merkle_interface/manager.rs"],
  [("cache entry status clean/dirty and clean snapshot", "state/src/cache.rs"), ("commit of dirty entries through the trie", "state/src/manager.rs")],
  observe=["read results", "root", "commit result"])

p("C05", "Fuzz sessions keep siblings independent and the chain head exact",
  "In a conformance session, importing any number of sibling blocks of the current head (valid or invalid) gives each the same answer it would get on a fresh node initialised to the parent; building on any of the valid siblings then makes that sibling the committed head and drops the others, later imports see only its ancestry, and the state reported for an imported header is that of exactly the block asked for. Invalid blocks, and blocks before initialisation, are answered with an error without ending the session.",
  ["histories", "schedules"],
  "every sequence of handshake/initialise/import/get-state messages forming a tree of blocks with forks at the head, in which any sibling may be extended",
  "The session tests replay linear recordings; the number of fork shapes and interleavings with failures is unbounded.",
  ["fuzz/src/fuzz_target.rs", "node/src/roles/importer.rs", "block/src/ancestors.rs", "node/src/roles/executor.rs"],
  [("staged commit of sibling post-states", "fuzz/src/fuzz_target.rs"), ("latest-known post-state handling", "node/src/roles/importer.rs")],
  observe=["session replies (roots, errors, key/value state)"])

p("C06", "Ticket contest: only fresh, proven, best tickets enter the accumulator",
  "Every ticket in a block's tickets extrinsic must prove ring membership for the next epoch's validators under the correct epoch randomness and attempt index, arrive before the contest closes, be in strictly ascending identifier order, be new, and survive into the accumulator; otherwise the block is rejected. The accumulator always is the ascending list of the best tickets submitted this epoch, at most one epoch's worth, and is emptied at an epoch change; when the contest closes with a full accumulator the winners are announced exactly once, in outside-in order, and seal the next epoch, otherwise the next epoch falls back to keys chosen by the epoch randomness.",
  ["inputs", "histories"],
  "every slot position, accumulator fill level and mix of valid, duplicate, unordered, late, foreign-ring, wrong-attempt tickets, across epoch changes including skipped epochs",
  "Vectors contain around twenty fixed ticket cases; fullness, ordering against the existing accumulator and skipped-slot closings are combinatorial.",
  ["extrinsics/src/validation/tickets.rs", "transition/src/state/safrole.rs", "state/src/types/safrole.rs", "node/src/roles/executor.rs"],
  [("ticket extrinsic validation", "extrinsics/src/validation/tickets.rs"), ("accumulator merge and sealing-series choice", "transition/src/state/safrole.rs")],
  observe=["import result", "safrole state", "tickets marker"])

p("C07", "Epoch changes rotate validators and randomness together and only then",
  "Within an epoch the active, pending, previous and staged-from validator sets and the three historical randomness values never change; at an epoch change (also one skipping whole epochs) previous becomes the old active set, active the old pending one, pending the staged set with every known offender's keys blanked, the ring commitment matches the new pending set, and the randomness history shifts by one. In every block the randomness accumulator becomes the hash of its old value and the header's verifiable entropy, and the slot becomes the header's; the announced epoch marker carries exactly the new randomness and pending keys.",
  ["histories", "inputs"],
  "every sequence of slots (adjacent, gaps, epoch skips), every staged set and every offender set",
  "Vectors fix a handful of epoch boundaries; validator-set/offender/ring-cache interactions over several epochs are not sampled.",
  ["transition/src/state/validators.rs", "transition/src/state/entropy.rs", "transition/src/state/timeslot.rs", "transition/src/state/safrole.rs", "node/src/roles/executor.rs"],
  [("epoch rotation transitions", "transition/src/state"), ("ring root via cache", "crypto/src/vrf/bandersnatch_vrf.rs")],
  observe=["validator sets", "entropy", "timeslot", "epoch marker"])

p("C08", "Judgements are recorded once, only with a valid verdict and evidence",
  "A block's disputes extrinsic is accepted only if every verdict carries exactly a supermajority of distinct, sorted, correctly signed votes by validators of the current or previous epoch, concerns a report not judged before, is unanimous-good with at least one fault, unanimous-bad with at least two culprits or one-third-positive, and every culprit/fault carries a valid signature by a known, not yet punished validator that contradicts the verdict; all lists strictly sorted. Once judged, a report never changes its category nor is judged again, the good, bad and wonky sets stay disjoint and only grow, offenders only grow and are exactly the keys named in the header's offenders marker, and a report judged not good is removed from the pending reports.",
  ["inputs", "histories"],
  "every combination of vote counts, epochs, signers, orderings, evidence lists and earlier judgements, over sequences of blocks",
  "Vectors cover some twenty single-block cases; the acceptance condition is a conjunction of a dozen clauses over three interdependent lists and the accumulated history.",
  ["extrinsics/src/validation/disputes.rs", "transition/src/state/disputes.rs", "state/src/types/disputes.rs", "block/src/types/extrinsics/disputes.rs"],
  [("disputes extrinsic validation", "extrinsics/src/validation/disputes.rs"), ("verdict evaluation and judgement sets", "transition/src/state/disputes.rs")],
  observe=["import result", "judgement sets", "offenders", "pending reports"])

p("C09", "A core's report becomes available only by supermajority of assurances",
  "An assurances extrinsic is accepted only if its entries are by distinct active validators in ascending order, anchored at the parent block, correctly signed and assert only cores that hold a pending report. A pending report leaves its core in a block only because it was judged, because more than two thirds of the active validators assured it in that block, or because it timed out; it becomes available in exactly the second case, and a core never holds two reports.",
  ["inputs", "histories"],
  "every set of assurers and bit patterns, report ages around the timeout, with and without disputes in the same block",
  "Vectors sample a dozen fixed assurance cases; thresholds, timeouts and their ordering with disputes and new guarantees within one block are combinatorial.",
  ["extrinsics/src/validation/assurances.rs", "transition/src/state/reports.rs", "state/src/types/reports.rs"],
  [("assurance validation", "extrinsics/src/validation/assurances.rs"), ("availability and timeout processing", "transition/src/state/reports.rs")],
  observe=["import result", "pending reports", "available reports via statistics/accumulation"])

p("C10", "A work report is pended only with valid guarantees in valid context",
  "A guarantee is accepted only if its core is free or timed out, its authorizer is in the core's pool, it has two or three sorted, correctly signed credentials by distinct, unpunished validators assigned to that core in the current or previous rotation, its slot lies within that window, its anchor, state root and accumulation-output root match a recent block, its lookup anchor is a recent enough ancestor, its prerequisites and dependencies are known and not yet exceeding the limit, its package was not reported, queued or accumulated before, every result names an existing service with its current code hash and at least its minimum gas within the core limit, and its output fits the size limit. An accepted guarantee pends exactly that report on exactly that core at the block's slot.",
  ["inputs", "histories"],
  "every single and combined violation of these clauses for every core, rotation offset, epoch boundary and history content",
  "Vectors contain some forty fixed guarantee cases in a single block; the clause set interacts with rotation boundaries, epoch changes, in-flight queue and history contents.",
  ["extrinsics/src/validation/guarantees.rs", "extrinsics/src/utils/guarantor_rotation.rs", "transition/src/state/reports.rs", "state/src/types/history.rs"],
  [("guarantee validation", "extrinsics/src/validation/guarantees.rs"), ("guarantor assignment", "extrinsics/src/utils/guarantor_rotation.rs")],
  observe=["import result", "pending reports"])

p("C11", "Reports accumulate once, in dependency order, within the gas budget",
  "An available report is accumulated only after all of its prerequisites and segment-root dependencies have been accumulated, never twice, and in the order: immediately ready ones first, then queued ones as they become unblocked; reports not ready wait in the ready queue slot of their block, from which they vanish only by accumulation, by being satisfied elsewhere, or after one epoch. The accumulated history holds exactly the package hashes accumulated in each of the last epoch-length slots, and the number accumulated in a block is the longest prefix that fits the gas budget.",
  ["histories", "inputs"],
  "every dependency graph over successive blocks of available reports, with slot gaps and gas totals around the limit",
  "The test vectors fix some thirty dependency shapes; arbitrary graphs, gaps, diamond and duplicate dependencies and gas-limited continuation are unbounded.",
  ["transition/src/state/accumulate.rs", "pvm/pvm-invocation/src/accumulate/pipeline.rs", "state/src/types/accumulate.rs"],
  [("accumulation queue editing and priority extraction", "pvm/pvm-invocation/src/accumulate/utils.rs"), ("outer accumulation with gas prefix", "pvm/pvm-invocation/src/accumulate/pipeline.rs")],
  observe=["ready queue", "accumulated history", "statistics", "last accumulation outputs"])

p("C12", "Authorizer pools consume used authorizers and refill from the queue",
  "In every block each core's authorizer pool loses the left-most occurrence of the authorizer used by a report guaranteed for that core in that block (and nothing else), gains at its end the queue entry selected by the block's slot, and is then trimmed from the left to its maximum size. Queues change only through a privileged service's assignment.",
  ["histories", "inputs"],
  "every pool content (duplicates, full, empty), slot and set of guaranteed cores",
  "Vectors contain three cases.",
  ["transition/src/state/authorizer.rs", "state/src/types/authorizer.rs"],
  [("pool transition", "transition/src/state/authorizer.rs")],
  observe=["authorizer pool and queue state"])

p("C13", "Recent history records every block once with the right roots",
  "After each block the recent history ends with that block's header hash, a placeholder state root, the accumulation-output commitment (the range-root of outputs appended to all previous ones) and the reported packages of its guarantees with their segment roots, while the previous block's entry now carries its true posterior state root; at most the configured number of blocks is kept, oldest dropped first. The commitment equals the one recomputed from the full list of per-block output roots.",
  ["histories"],
  "every sequence of blocks with any outputs and guarantees, before and after the history is full",
  "Vectors fix a few 1-block transitions; the range commitment over long histories is not recomputed independently.",
  ["transition/src/state/history.rs", "state/src/types/history.rs", "merkle/src/mmr.rs", "node/src/roles/executor.rs"],
  [("history transition in two phases", "transition/src/state/history.rs"), ("mountain range append and super-peak", "merkle/src/mmr.rs")],
  observe=["recent history state"])

p("C14", "Activity statistics count exactly what each block did",
  "Per-validator counters grow, for the block's author, by one block and by its tickets, preimages and preimage bytes, for each assurer by one assurance and for each validator who signed any of the block's guarantees by one guarantee, and roll over to the previous-epoch record exactly at an epoch change. Per-core and per-service figures are recomputed in each block from its guarantees, newly available reports, assurances, preimages, accumulation and nothing else.",
  ["histories", "inputs"],
  "every block content, author and epoch position",
  "Vectors only cover validator counters in a few blocks; core and service figures are only checked by whole-block traces outside the repository.",
  ["transition/src/state/statistics.rs", "state/src/types/statistics.rs"],
  [("statistics transition", "transition/src/state/statistics.rs")],
  observe=["statistics state"])

p("C15", "Preimages are integrated only when solicited; lookups see history",
  "A preimages extrinsic is accepted only if its entries are strictly ascending, each solicited by its service and not yet provided; after the block, each one still solicited is stored with its availability recorded at the block's slot. A historical lookup at a slot returns the preimage exactly if its recorded availability intervals cover that slot, and the request life-cycle (request, available, unavailable, available again, dropped after expiry) follows its fixed sequence.",
  ["histories", "inputs"],
  "every sequence of solicit/provide/forget/re-solicit operations and slots, and every lookup time",
  "Vectors cover a handful of single steps; the life-cycle over histories is not explored.",
  ["extrinsics/src/validation/preimages.rs", "transition/src/state/services.rs", "state/src/types/services.rs", "pvm/pvm-host/src/context/partial_state.rs"],
  [("preimage validation and integration", "transition/src/state/services.rs"), ("historical lookup", "state/src/state_utils.rs")],
  observe=["import result", "preimage storage and lookup entries"])

p("C16", "Service calls move value and privilege only by the rules",
  "During accumulation no program can create balance, spend below its storage threshold, exceed its gas, change another service's data, or use a privileged operation it does not hold; each host operation returns its specified result code and has exactly its specified effect, and an operation that fails has no effect. Storage footprint counters always equal what is actually stored.",
  ["programs", "inputs"],
  "every program built from sequences of host operations with arbitrary arguments, gas limits and starting accounts",
  "Unit tests check single host calls on mocked contexts; sequences interacting through the shared account state and footprint are unbounded.",
  ["pvm/pvm-host/src/host_functions/accumulate/mod.rs", "pvm/pvm-host/src/host_functions/general/mod.rs", "pvm/pvm-host/src/context/partial_state.rs", "state/src/types/services.rs"],
  [("host functions", "pvm/pvm-host/src/host_functions"), ("footprint accounting", "state/src/types/services.rs")],
  observe=["account state after block", "results stored by the program"])

p("C17", "Accumulation effects merge deterministically; failure reverts to checkpoint",
  "When several services accumulate in one block each starts from the same prior state, and the merged outcome (account changes, transfers, privileges, queues, staged validators, outputs) is the same for every execution order and timing. A service that panics or runs out of gas contributes exactly the effects up to its last checkpoint (none if there was none), and one that ends regularly exactly all of them.",
  ["schedules", "programs", "fault_sequences"],
  "every set of services accumulating in parallel, every point of failure relative to checkpoints, every privileged role assignment",
  "Tests run one service at a time on a single schedule; merges depend on the combination of roles and failures.",
  ["pvm/pvm-invocation/src/accumulate/pipeline.rs", "pvm/pvm-invocation/src/accumulate/mod.rs", "pvm/pvm-host/src/context/mod.rs"],
  [("parallel accumulation and merge", "pvm/pvm-invocation/src/accumulate/pipeline.rs"), ("regular/exceptional context pair", "pvm/pvm-host/src/context/mod.rs")],
  observe=["posterior state of block"])

p("C18", "Programs run by the instruction semantics and can never take a node down",
  "For every program blob and input, execution produces exactly the registers, memory, gas and exit (halt, panic, fault, out-of-gas, host call) that the instruction-set definition assigns. No program, blob or argument makes execution abort, hang, consume unmetered resources or return an internal error: a malformed program is a panic of that service, not of the node or the block.",
  ["programs", "inputs"],
  "every byte string as program and every register/memory/gas state",
  "Vectors hold one or two cases per instruction; operand corner values, skip lengths at the end of code and malformed blobs are not enumerated.",
  ["pvm/pvm-core/src/interpreter/mod.rs", "pvm/pvm-core/src/program/instruction/set.rs", "pvm/pvm-core/src/program/loader.rs", "pvm/pvm-interface/src/invoke.rs"],
  [("instruction decode and dispatch", "pvm/pvm-core/src/program"), ("single-step loop with gas", "pvm/pvm-core/src/interpreter/mod.rs")],
  observe=["final machine state and exit reason"])

p("C19", "Guest memory access respects page permissions and faults precisely",
  "A guest load or store succeeds exactly when every touched byte lies on a page with the needed access and then reads or writes exactly those bytes; otherwise memory is unchanged and the reported fault address is the lowest offending page, while accesses to the first 64 KiB panic. In the standard layout the heap grows only through the dedicated instruction, zero-filled and never over other regions; growth that cannot be granted answers zero and changes nothing.",
  ["programs", "inputs"],
  "every layout of read-only/read-write/inaccessible pages and every access width and alignment, including page-crossing and address-space wrap",
  "Tests access a few in-page addresses.",
  ["pvm/pvm-core/src/state/memory.rs", "pvm/pvm-core/src/state/state_change.rs", "pvm/pvm-core/src/program/instruction/set.rs"],
  [("page table checks", "pvm/pvm-core/src/state/memory.rs")],
  observe=["exit reason, fault address, memory contents"])

p("C20", "Wire and state encodings are bijective and decoding never aborts",
  "Encoding any protocol value and decoding it gives the value back, consuming exactly the bytes written, in exactly the protocol's layout: field order, little-endian integers, compact integers in their shortest form, length prefixes, ascending maps and sets. Decoding arbitrary bytes either yields a value or an error: it never aborts the process or allocates more than in proportion to the input.",
  ["inputs"],
  "every value of every block/state/message type and every byte string",
  "Round-trip tests use a few values per type; malformed inputs are hardly tested.",
  ["codec/fr-codec/src/lib.rs", "codec/fr-codec-derive/src/lib.rs", "block/src/types", "state/src/types", "fuzz/src/types.rs"],
  [("JamEncode/JamDecode implementations", "codec/fr-codec/src/lib.rs")],
  observe=["decode results"])

p("C21", "Any third of erasure-coded shards reconstructs the data",
  "Erasure coding splits data into the fixed number of shards so that every subset of at least the recovery threshold, whichever shards and in whatever order, reconstructs exactly the original data, and any smaller subset is refused. The encoding is deterministic and systematic: the first shards are the data itself.",
  ["inputs", "fault_sequences"],
  "every data length and every subset of surviving shards",
  "The crate has no tests of its own in the baseline.",
  ["common/erasure-coding/src/lib.rs"],
  [("Reed-Solomon wrapper", "common/erasure-coding/src/lib.rs")],
  observe=["encode/recover results"])

p("C22", "Validators are assigned to cores by the protocol's shuffle, evenly",
  "For every randomness value and slot the assignment of validators to cores is the protocol-defined shuffle of the even split, rotated by the number of elapsed rotation periods within the epoch, so each core has its equal share at all times and every validator exactly one core. The sealing-key fallback sequence likewise is the protocol-defined selection by the epoch randomness.",
  ["inputs"],
  "every randomness value, slot within an epoch and validator count",
  "Vectors hold a few fixed shuffles.",
  ["extrinsics/src/utils/guarantor_rotation.rs", "extrinsics/src/utils/shuffle.rs", "state/src/types/safrole.rs"],
  [("Fisher-Yates shuffle driven by hashed entropy", "extrinsics/src/utils/shuffle.rs"), ("rotation", "extrinsics/src/utils/guarantor_rotation.rs")],
  observe=["assignment vectors"])

p("C23", "Ancestry answers exactly the ancestors of the branch within the age limit",
  "The set of known ancestors after any sequence of additions and reorganisations contains exactly the headers added within the retention window and not removed; a block whose lookup anchor is not an ancestor of its own branch within the permitted age is rejected, and one whose anchor is, is not rejected on that ground.",
  ["histories"],
  "every sequence of additions, duplicates, removals and forks, around the window limit",
  "Five unit tests on fixed tiny sequences.",
  ["block/src/ancestors.rs", "block/src/header_db.rs", "node/src/roles/importer.rs", "extrinsics/src/validation/guarantees.rs"],
  [("ancestor set with eviction", "block/src/ancestors.rs")],
  observe=["membership answers", "import results"])

p("C24", "Exactly one side of every validator pair initiates the connection",
  "For any two distinct validators, exactly one of them is the preferred initiator, both sides compute the same answer, and it is the one the protocol's key rule names. Peers to connect to are exactly the validators of the previous, current and next (pending) sets other than oneself, each once.",
  ["inputs", "configurations"],
  "every pair of keys and every overlap of the three validator sets",
  "Four network tests use fixed keys.",
  ["network/src/manager.rs", "network/src/types.rs"],
  [("preferred initiator rule", "network/src/manager.rs")],
  observe=["initiator choice", "peer list"])

p("C25", "Merkle commitments and proofs match the protocol definition",
  "Well-balanced and constant-depth tree roots, page proofs (traces) and mountain-range commitments equal the protocol's recursive definition for every list of leaves, every proof verifies to the root for its own leaf and for no other leaf or position, and appending to a range changes the commitment exactly as defined.",
  ["inputs"],
  "every leaf count (including zero, one, powers of two and neighbours), leaf size and index, for both hash functions",
  "Vectors cover a few fixed lists.",
  ["merkle/src/common.rs", "merkle/src/well_balanced_tree.rs", "merkle/src/constant_depth_tree.rs", "merkle/src/mmr.rs"],
  [("recursive node function", "merkle/src/common.rs"), ("range append", "merkle/src/mmr.rs")],
  observe=["roots, proofs"])

p("C26", "What this node authors, every node imports with the same result",
  "A block produced by the node's own author for a slot its key owns, on top of any imported chain, is accepted by an independent importer holding the parent, and both end with the same posterior state root. In epochs sealed by fallback keys the node authors in exactly the slots whose sealing key is its own, also right after an epoch change or a change of the validator set, and authoring leaves its committed state as it was until the block is imported.",
  ["histories"],
  "every chain prefix, epoch position, sealing mode and extrinsic content",
  "One end-to-end test authors a single block in one fixed slot.",
  ["node/src/roles/author.rs", "node/src/roles/executor.rs", "node/src/roles/importer.rs"],
  [("authoring pipeline", "node/src/roles/author.rs")],
  observe=["authored block import result and root"])

p("C27", "Work done off chain is what its package says; nested machines stay apart",
  "Authorizing a work package and refining an item of it run the code that was available at the package's lookup-anchor slot with the specified arguments and gas, see exactly the package, imports, extrinsics, trace and old preimages they are entitled to, and end with the specified output, gas used and exported segments. Exports are numbered from the given offset in order, zero-padded to a segment, and never exceed the limit per package; a run that does not halt regularly exports nothing. Machines a refinement creates get the lowest unused identifier, have their own memory with the accesses given to its pages and nothing else, run with the gas and registers handed over, report how they stopped (with the call's number or the faulting page), go on where they stopped, and affect neither each other nor the caller's memory outside the addressed ranges.",
  ["inputs", "histories"],
  "every package, item, old account state and code; every sequence of host calls including invalid ranges, unknown machines and arbitrary numbers; every program of a nested machine",
  "Unit tests make single calls on a mocked machine; nothing runs a refinement or a nested machine through several invocations.",
  ["pvm/pvm-invocation/src/refine/mod.rs", "pvm/pvm-invocation/src/is_authorized/mod.rs", "pvm/pvm-host/src/host_functions/refine/mod.rs", "pvm/pvm-host/src/host_functions/general/mod.rs", "pvm/pvm-host/src/inner_vm.rs"],
  [("refine host functions", "pvm/pvm-host/src/host_functions/refine/mod.rs"), ("refine invocation", "pvm/pvm-invocation/src/refine/mod.rs")],
  observe=["refinement result, output, gas used and exports"])

p("C28", "A block a node holds reaches every connected peer that hears of it",
  "Whatever blocks a node announces, every connected peer hears of each of them in the order they were announced, asks the announcer and hands on to its importer exactly the blocks the announcer holds whole, octet for octet; a block request is answered with the whole block, or with nothing if it is not held whole. This is so however large the blocks are, however the streams are cut into pieces, however many announcements arrive together, whichever side opened the connection, whatever a peer sends that means nothing, and whichever other peers have gone away or come back. A node can supply what it authored once it announces it.",
  ["inputs", "schedules", "fault_sequences"],
  "every size of block, division of streams into pieces, order of announcements and requests, malformed stream, and loss of a connection",
  "No test runs two nodes; unit tests cover the choice of the initiator only.",
  ["network/src/streams/up_streams.rs", "network/src/streams/ce_streams/mod.rs", "network/src/streams/ce_streams/responder.rs", "network/src/streams/ce_streams/block_request.rs", "network/src/manager.rs", "node/src/jam_node/mod.rs", "node/src/scheduler/chain_extension.rs"],
  [("block announcements", "network/src/streams/up_streams.rs"), ("block requests", "network/src/streams/ce_streams/mod.rs")],
  observe=["announcements sent", "answers to block requests", "blocks handed to the importer"])

p("C29", "Signatures are accepted only as made, and a key has one output per input",
  "A plain signature, an output proof or a ring proof is accepted exactly if the holder of the key (of one of the ring's keys) made it over that very context and message, whatever has been altered, replayed or put together, and checking never aborts. Accepted proofs of one key and context all carry the same output, through plain proofs and ring proofs alike, so that no key holder, however it makes its proofs, has a second output for an input or a second ticket for an attempt; no other key or context shares it. Every list of validator keys has a ring root, keys that are no usable points leaving a gap; equal lists have equal roots and different lists different ones.",
  ["inputs", "histories"],
  "every key, context, message, ring, alteration of a signature and order of signing and checking",
  "Unit tests sign and check one message and alter one octet; none considers what a dishonest key holder can prove, or keys that are no points.",
  ["crypto/src/vrf/vrf_core.rs", "crypto/src/vrf/bandersnatch_vrf.rs", "crypto/src/vrf/ring.rs", "crypto/src/signers/ed25519.rs", "crypto/src/types/signatures.rs"],
  [("output proofs", "crypto/src/vrf/vrf_core.rs"), ("rings", "crypto/src/vrf/ring.rs"), ("plain signatures", "crypto/src/signers/ed25519.rs")],
  observe=["signatures made", "verdicts on signatures", "outputs", "ring roots"])

p("C30", "Author and importer never mix; each slot the node owns is used once",
  "While the node authors a block and takes in blocks of others at the same time, its chain and state are always those of some order in which one waited for the other: no block's changes are lost, filed with another's, or left behind by one that failed or was refused, and every root reported is that of its own block. A node left running authors exactly one block in each slot its key owns that it is awake to see the beginning of, within that slot, and stamps it with that slot whatever time has passed meanwhile; after a stall over several slots it authors for the current one only. The clock gives the slot of the moment it is read and, at any moment, the time left until the next begins; a slot counts as future until it begins.",
  ["schedules", "histories"],
  "every interleaving of the author's and the importer's work, every moment at which either starts, every way time passes",
  "Tests run the author, the importer and the clock one at a time, at fixed moments.",
  ["node/src/scheduler/chain_extension.rs", "node/src/scheduler/timeslot_scheduler.rs", "node/src/roles/author.rs", "node/src/roles/importer.rs", "clock/src/lib.rs", "state/src/types/timeslot.rs"],
  [("turns", "node/src/scheduler/chain_extension.rs")],
  observe=["state root, head and filed post-state roots after concurrent work", "authored blocks' slots"])

p("C31", "The extrinsic pool loses, repeats and blocks nothing",
  "Whatever extrinsics are submitted, by whichever threads, each one taken is held once and listed under the type and timeslot it was submitted for, once and in the order of submission, however often it is submitted; a reader sees everything taken before it asked, as it was submitted and nothing else. The pool never holds more than its size: while it is full, and only then, it refuses an extrinsic it does not hold, and refusing changes nothing. Submitting and reading at the same time always come to an end.",
  ["schedules", "histories"],
  "every sequence of submissions and readings and every interleaving of the threads that make them",
  "No test exercises the pool.",
  ["extrinsics/src/pool/mod.rs"],
  [("submission", "extrinsics/src/pool/mod.rs"), ("reading", "extrinsics/src/pool/mod.rs")],
  observe=["answers to submissions", "lists read", "number of extrinsics held"])

p("C32", "The outcome of a block does not depend on how its parallel parts are scheduled",
  "A block's verdict, the state it leads to, the root of that state and the markers in its header are the same however the parts of its transition that run side by side take turns, on one thread or on several: always those of running the parts one after the other as the protocol defines them, each reading the state of before the block or as changed by an earlier part exactly as it should. Importing always comes to an end.",
  ["schedules", "inputs"],
  "every interleaving of the accesses that the concurrent parts of a block's transition make to the state",
  "Tests let the runtime schedule the parts, which nearly always run in the order they were started.",
  ["node/src/roles/executor.rs", "transition/src/state", "state/src/manager.rs", "state/src/cache.rs"],
  [("parts running side by side", "node/src/roles/executor.rs"), ("shared state", "state/src/manager.rs")],
  observe=["import result", "state after each block", "state root"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
