"""What each property's check runs (see check.py)."""

def setof(names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"

TINY = dict(V=6, C=2, E=12, Y=10, K=3, N=3, R=4, U=5, L=24, H=8, O=8, Q=80, GasPerCore=10000000, GasTotal=20000000,
            MaxDeps=8, MaxOutput=49152, SegBytes=4104)
ALLC = ["slot", "eta", "active", "past", "staging", "safrole", "disputes", "reports", "pool", "queue", "history", "stats", "accq", "acch", "outputs", "want", "priv"]
RULES = ["header", "disputes", "tickets", "assurances", "guarantees", "preimages"]

def chain(mode, quick, thorough, watch, judge, what, name=None):
    return dict(kind="trace", name=name or "chain-" + mode, driver="chain", mode=mode, n={"quick": quick, "thorough": thorough}, spec="ChainTrace",
                consts=dict(TINY, Watch=setof(watch), Judge=setof(judge)), what=what)

def func(mode, quick, thorough, what, shards=8):
    return dict(kind="trace", name="func-" + mode, driver="func", mode=mode, n={"quick": quick, "thorough": thorough}, spec="FuncTrace", shards=shards,
                consts=dict(TINY), what=what)

def store(mode, raw, typed, quick, thorough, depth, what):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\n" + "".join("CONSTANT %s = %s\n" % kv for kv in dict(
        RawKeys="{%s}" % ", ".join(map(str, range(1, raw + 1))), TypedKeys="{%s}" % ", ".join(map(str, range(raw + 1, raw + typed + 1))), Values="{1, 2, 3, 4, 5, 6, 7, 8}", Depth=depth).items())
    return dict(kind="gen", name="store-" + mode, driver="store", mode=mode, n=0, spec="StoreTrace", consts={}, what=what,
                gen=dict(spec="StoreGen", cfg=cfg, depth=depth + 1, num={"quick": quick, "thorough": thorough}))

def session(blocks, depth, quick, thorough, what):
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\nCONSTANT Depth = %d\nCONSTANT MaxBlocks = %d\n" % (depth, blocks)
    return dict(kind="gen", name="session", driver="session", mode="", n=0, spec="ForkTrace", consts={}, what=what,
                gen=dict(spec="ForkGen", cfg=cfg, depth=depth + 1, num={"quick": quick, "thorough": thorough}))

def mc(spec, what, quick, thorough, invs="", props="", name=None, view=None):
    words = lambda x: x.split() if isinstance(x, str) else list(x)
    d = dict(kind="mc", name=name or spec, spec=spec, what=what, tiers={"quick": quick, "thorough": thorough}, invs=words(invs), props=words(props))
    if view:
        d["extra_cfg"] = "VIEW " + view
    return d

BASE = dict(V=2, C=2, E=3, Y=2, K=2, N=2, R=1, U=2, L=4, H=3, O=2, Q=2)      # a very small network, for exhaustive exploration
QUEUE = dict(GasPerCore=10, GasTotal=10, MaxDeps=8, MaxOutput=100)

SAFROLE_INVS, SAFROLE_PROPS = "AccLowest SealersComplete SealersActive CanAuthor MarkerTimely", "Rotation OffendersOut Frozen SealersWon MarkedOnce"
SAFROLE = mc("SafroleModel", "every sequence of slots, tickets, offenders and handovers of a small network: entropy, key rotation, the contest, the sealing keys and markers",
             dict(BASE, MaxSlot=7, TicketIds='{"10", "21", "32", "43"}', Handovers=1), dict(BASE, MaxSlot=9, TicketIds='{"10", "21", "32", "43"}', Handovers=2), SAFROLE_INVS, SAFROLE_PROPS, view="View")
DISPUTES = mc("DisputesModel", "every sequence of disputes over two reports with dishonest validators",
              dict(BASE, V=3, C=1, Reps='{"aa", "bb"}', Dishonest='{"03", "05"}', MaxBlocks=3, MaxV=1), dict(BASE, V=3, C=1, Reps='{"aa", "bb"}', Dishonest='{"03", "05"}', MaxBlocks=3, MaxV=2),
              "JudgedOnce HonestSafe TruthHolds NotPending", "GoodStays OnlyGrows Punished")
def pipeline(c1, c2):
    p = dict(BASE, **QUEUE, V=3, L=9, Judging="TRUE")
    return mc("PipelineModel", "every way a few packages with dependencies go through guaranteeing, assurance, time-out, dispute, queueing and accumulation",
              dict(p, **c1), dict(p, **c2), "Once InOrder OnePlace DepsRight NotStale KeptLength", "Leaves Arrives Prompt", view="View")
PIPELINE = pipeline(dict(C=2, Packages='{"01", "02"}', MaxSlot=4, Skip=2), dict(C=2, Packages='{"01", "02", "03"}', MaxSlot=3, Skip=1))
PIPELINE1 = pipeline(dict(C=1, Packages='{"01", "02"}', MaxSlot=5, Skip=3), dict(C=2, Packages='{"01", "02"}', MaxSlot=5, Skip=2))
LEDGER = mc("LedgerModel", "every short history of authored blocks: figures, pools, history, belt and met preimages recomputed from the whole history",
            dict(BASE, **QUEUE, V=3, C=1, E=2, H=2, L=9, SegBytes=8, MaxSlot=2, Auths='{"x", "y"}'), dict(BASE, **QUEUE, V=3, C=1, E=2, H=2, L=9, SegBytes=8, MaxSlot=3, Auths='{"x", "y"}'),
            "FiguresExact PoolsBounded HistoryExact BeltCounts PreimagesCounted", "PoolSteps MetOnce")
REQUESTS = mc("RequestModel", "every life of one request: solicited, provided, forgotten, asked again, looked up at every slot",
              dict(D=2, MaxSlot=9, MaxOps=2), dict(D=3, MaxSlot=16, MaxOps=3), "Shape LookupExact StoredRight")

CHECKS = {}

def check(pid, jobs, note, technique="TLA+ specification; traces of the real code validated by TLC; small instances model-checked", level="model_checking", assumptions=()):
    CHECKS[pid] = dict(jobs=jobs, level=level, note=note, technique=technique, assumptions=list(assumptions))

SIG = "Signature, VRF and hash primitives are taken as ideal: which key signed what is known from the signature's construction"

check("C01", [chain("atomic", 14, 120, ALLC, RULES, "valid and invalid blocks of every kind offered to one node and (valid ones only) to a twin; state, root, best header compared after each")],
      "Exhaustive over nothing: random histories of ~14 blocks, ~75% mutated across all rule families; complete state and root compared after every import and with a twin that never saw the rejected blocks.", assumptions=[SIG])
check("C02", [chain("header", 28, 200, ["slot"], ["header"], "single-field header and signature mutations in ticket and fallback epochs, at and around epoch changes"),
              SAFROLE],
      "Every header field and both signatures mutated over random states; verdict compared with the specification's header rules.", assumptions=[SIG])
check("C05", [session(14, 40, 2, 30, "sessions with forks at the head: any sibling extended, dropped, repeated, queried; out-of-order messages"),
              mc("ForkModel", "the staging design in lock-step with the session specification, every tree of blocks", dict(Keys="{1, 2}", Values="{1}", MaxBlocks=4, MaxOps=6), dict(Keys="{1, 2}", Values="{1, 2}", MaxBlocks=4, MaxOps=7),
                 "HeadExact ReportsExact StagedAreChildren StagedTracked", "HeadDescends HeadMovesOnDemand")],
      "Every answer compared with the session specification and with a fresh session initialised to the parent.", assumptions=[SIG])
check("C06", [chain("tickets", 16, 150, ["safrole"], ["tickets", "header"], "ticket extrinsics, valid and mutated, against random accumulators and across contest end and epoch change"),
              SAFROLE],
      "Random accumulators/epochs; tickets component and verdict compared at each block.", assumptions=[SIG])
check("C07", [chain("rotate", 28, 250, ["slot", "eta", "active", "past", "staging", "safrole"], ["header"], "epoch changes (also skipping epochs) with offenders in the staged set"),
              SAFROLE],
      "Entropy, validator sets, ring commitment and sealing keys compared at each block.", assumptions=[SIG])
check("C08", [chain("disputes", 32, 250, ["disputes", "safrole", "reports"], ["disputes", "header"], "disputes extrinsics, valid and mutated 24 ways"),
              DISPUTES],
      "Verdict and resulting judgement sets, offenders, and dropped reports compared at each block.", assumptions=[SIG])
check("C09", [chain("assur", 28, 250, ["reports", "accq", "acch", "stats"], ["assurances"], "assurances around the supermajority and time-out thresholds, valid and mutated"),
              PIPELINE1],
      "Pending reports and what becomes available compared at each block.", assumptions=[SIG])
check("C10", [chain("guar", 36, 300, ["reports"], ["guarantees"], "guarantees, valid and mutated 36 ways"),
              PIPELINE1],
      "Verdict and pending reports compared at each block.", assumptions=[SIG])
check("C11", [chain("acc", 28, 250, ["accq", "acch", "outputs", "stats"], [], "reports with prerequisites and segment-root dependencies made available over several blocks; metered services"),
              PIPELINE],
      "Ready queue, accumulated history, outputs and gas figures compared at each block.", assumptions=[SIG])
check("C12", [chain("pool", 24, 250, ["pool", "queue"], [], "guarantees using pooled authorizers, blocks with skipped slots"),
              LEDGER],
      "Pools compared at each block.", assumptions=[SIG])
check("C13", [chain("history", 24, 250, ["history", "outputs"], [], "histories below and at capacity, accumulate outputs, reported packages, skipped slots"),
              LEDGER],
      "History entries, belt and roots compared at each block.", assumptions=[SIG])
check("C14", [chain("stats", 20, 200, ["stats"], [], "blocks of every content, by every author, across epochs"),
              LEDGER],
      "All validator, core and service figures compared at each block.", assumptions=[SIG])
check("C15", [chain("pre", 32, 300, ["want"], ["preimages"], "preimage extrinsics, valid and mutated"),
              func("lookup", 60, 900, "stored accounts with preimages and requests of every shape; historical look-ups at every slot around their edges"), REQUESTS, LEDGER],
      "Verdict and request life-cycle compared at each block.", assumptions=[SIG])
check("C23", [chain("anc", 28, 250, ["reports"], ["guarantees"], "lookup anchors at every age, on and off the branch"),
              func("anc", 60, 900, "the node's ancestor set: random additions and membership questions, around its capacity"),
              mc("AncestorModel", "every tree of headers added in every order", dict(Cap=3, MaxSlot=5), dict(Cap=3, MaxSlot=6), "HoldsLatest Reachable")],
      "Membership decided through guarantee validation.", assumptions=[SIG])

check("C03", [store("raw", 12, 0, 30, 600, 60, "behaviours of the store over raw keys with shared prefixes and values around the embedding limit"),
              store("mixed", 8, 6, 15, 300, 60, "behaviours over raw and typed entries"),
              mc("TrieLaws", "every map over four keys and a few value lengths, reached by every sequence of changes", dict(Values="{0, 32}"), dict(Values="{0, 1, 32, 33}"), "EmptyZero AllDiffer", "Changes")],
      "Root compared with the recursive definition after every commit and preparation.")
check("C04", [store("mixed", 8, 6, 30, 600, 80, "behaviours over raw and typed entries, with small caches"),
              store("raw", 12, 0, 15, 300, 60, "behaviours over raw keys"),
              mc("CacheModel", "the cache design in lock-step with the abstract store, every interleaving", dict(Keys="{1, 2}", Values="{1, 2}", MaxSteps=14), dict(Keys="{1, 2, 3}", Values="{1, 2}", MaxSteps=14),
                 ["ReadsAgree", "CleanReadsAgree", "DatabaseAgrees", "MarksRight", "PreparedRight"])],
      "Every read, refusal, rollback, preparation and commit compared.")

def pvm(mode, quick, thorough, what):
    return dict(kind="trace", name="pvm-" + mode, driver="pvm", mode=mode, n={"quick": quick, "thorough": thorough}, spec="PvmTrace", consts={}, shards={"quick": 8, "thorough": 96}, what=what)

LAWS = mc("ArithLaws", "the word arithmetic obeys its defining laws", dict(Bytes="{0, 255}"), dict(Bytes="{0, 1, 127, 128, 255}"),
          ["AddSub", "Division", "SignedDivision", "Product", "Order", "Shifts", "Counts", "Bits"])
check("C18", [pvm("one", 4000, 6000, "single instructions of every opcode with corner operands, odd lengths, masks and starting points"),
              pvm("prog", 1500, 2500, "random programs with branches, loops, dynamic jumps, memory traffic and gas limits"),
              pvm("blob", 1000, 2000, "malformed and odd programs, raw and standard"),
              pvm("std", 1000, 1500, "standard programs run through the common entry point, with host calls, arguments and output ranges"), LAWS],
      "Final registers, memory, gas and exit of each run compared with the specified machine, instruction by instruction inside TLC.")
check("C19", [pvm("mem", 1200, 2000, "loads, stores and heap growth over random page tables, at page and address-space edges"),
              pvm("std", 1000, 1500, "the standard layout: static data, heap, stack, arguments, output ranges")],
      "Exit, fault page, registers and every octet of every readable page compared.")

def acc(mode, quick, thorough, what):
    return dict(kind="trace", name="accum-" + mode, driver="accum", mode=mode, n={"quick": quick, "thorough": thorough}, spec="AccTrace",
                consts=dict(NumVals=6, NumCores=2, QueueLen=80), shards={"quick": 8, "thorough": 64}, what=what)

check("C16", [acc("host", 50, 80, "services making random host calls of every kind with valid, edge and invalid arguments"),
              acc("scene", 14, 40, "chains of calls over several rounds"),
              REQUESTS,
              mc("HostModel", "one service making every short sequence of calls over several rounds: value, counters, ownership and privileges",
                 dict(MaxCalls=2, Slots_="{15, 40, 80}", Balance='"260"', NumVals=1, NumCores=2, QueueLen=1), dict(MaxCalls=3, Slots_="{15, 40, 80}", Balance='"500"', NumVals=1, NumCores=2, QueueLen=1),
                 "FreshNext NeverMore Value Counted Covered_ KnownOnly Whole", "Fails OthersKept OnlyEjectRemoves EjectOwned QueueHeld StagingHeld GratisHeld SmallIds Checkpoints")],
      "The specified machine runs every program, answers each call, and the whole stored outcome is compared with what the node stored.", assumptions=[SIG])
check("C17", [acc("merge", 36, 80, "several services in one round, sending, creating, removing, providing, handing privileges over"),
              acc("scene", 40, 80, "histories over several rounds: credits then removal, ids freed and taken, preimages provided to running services, privileges handed over"),
              mc("MergeLaws", "three services with random effects merged in every order", dict(Rich="FALSE", NumVals=6, NumCores=1, QueueLen=80), dict(Rich="TRUE", NumVals=6, NumCores=1, QueueLen=80), "AnyOrder KeepsSum Own Privileges")],
      "Stored accounts, privileges, queues, gas figures and outputs compared after every block.", assumptions=[SIG])

check("C21", [func("erasure", 40, 800, "encodings of random data compared shard by shard with polynomial interpolation over the field of 2^16 elements; recovery from random subsets"),
              mc("ErasureLaws", "every subset of shards of small codes recovers the data", dict(BASE, Ks="{2, 3}", N_=7), dict(BASE, Ks="{2, 3, 4, 5}", N_=10), "Recoverable Systematic")],
      "Tiny (2 of 6) and full (342 of 1023) code.")
check("C22", [func("shuffle", 60, 1200, "shuffles of many lengths; assignments of the current and previous rotation; fallback key sequences"),
              mc("ShuffleLaws", "assignments at every slot of two epochs, fallback keys and shuffles for several randomnesses",
                 dict(BASE, V=6, E=12, Y=10, R=4, U=5, L=9, H=2, GasPerCore=1, MaxDeps=1, MaxOutput=1, Seeds="{1, 2, 3, 4, 5, 6, 7, 8}", MaxLen=9),
                 dict(BASE, V=12, C=4, E=24, Y=20, R=4, U=5, L=9, H=2, GasPerCore=1, MaxDeps=1, MaxOutput=1, Seeds="{%s}" % ", ".join(map(str, range(1, 101))), MaxLen=30),
                 "Rearranges Even Moves Consistent FallbackMembers OffendersBarred OutsideInFair")],
      "Random entropies, slots, validator sets.")
check("C24", [func("net", 6, 60, "a node with random validator sets opens connections over the loopback network; who is contacted is observed from the sockets"),
              mc("NetworkLaws", "every pair of keys around the rule's boundaries", dict(BASE, Heads='{"00", "01", "7f", "80", "ff"}', Tails='{"00", "01", "7f", "80", "81", "ff"}'),
                 dict(BASE, Heads='{"00", "01", "7e", "7f", "80", "81", "fe", "ff"}', Tails='{"00", "01", "40", "7e", "7f", "80", "81", "c0", "fe", "ff"}'), "OneSide Opened NotItself Balanced")],
      "Keys around the rule's boundaries.")
check("C25", [func("merkle", 40, 800, "roots, page proofs and range commitments of random leaf lists; proofs verified against every other page"),
              mc("MerkleLaws", "every list length and range: range commitments, page proofs and belts agree with their definitions", dict(BASE, MaxLen=10, MaxPage=3), dict(BASE, MaxLen=33, MaxPage=4), "RangeAgrees ProofsLead ProofsBind RootsDiffer", "Grows")],
      "Leaf lists up to 65 entries, of any leaf length; ranges up to 24 leaves.")

CODEC = dict(V=6, C=2, E=12, Q=80, H=8, O=8, L=24, Super=5, MaxItems='"16"')
NAMES = setof(["u8", "u16", "u32", "u64", "bool", "ints", "option", "pairs", "set", "array", "three", "bits", "octets"])
check("C20", [dict(kind="gen", name="codec", driver="codec", mode="", n=0, spec="CodecTrace", consts=CODEC, shards={"quick": 8, "thorough": 64},
                   what="values of every encoded type, whole and damaged, drawn from the layouts by TLC; sizes at the edges of the integer ranges",
                   gen=dict(spec="CodecGen", cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\nCONSTANT Depth = 60\n" + "".join("CONSTANT %s = %s\n" % kv for kv in CODEC.items()),
                            depth=61, num={"quick": 200, "thorough": 600})),
              mc("CodecLaws", "short strings over chosen octets against every kind of layout", dict(CODEC, Octets_='{"00", "01", "02", "7f", "80", "c0", "ff"}', MaxLen=4, Names=NAMES),
                 dict(CODEC, Octets_='{"00", "01", "02", "7f", "80", "c0", "ff"}', MaxLen=5, Names=NAMES), "Bounded OneForm Shortest", "PrefixFree")],
      "Each string decoded and encoded again by the real code; verdict and octets compared with the layout; memory asked for while decoding bounded.")
check("C26", [dict(kind="trace", name="author", driver="author", mode="", n={"quick": 16, "thorough": 60}, spec="ChainTrace", consts=dict(TINY, Watch=setof(ALLC), Judge=setof(RULES)),
                   what="a node's own author at chosen slots: around epoch changes, after changes of the validator set, in ticket and fallback epochs; the block offered to another node"),
              SAFROLE],
      "Turns and blocks compared with the specification's schedule; the block must be accepted and lead to the same state on both nodes.", assumptions=[SIG])

check("C27", [dict(kind="trace", name="refine", driver="refine", mode="", n={"quick": 45, "thorough": 100}, spec="RefineTrace", shards={"quick": 8, "thorough": 64},
                   consts=dict(NumVals=6, NumCores=2, QueueLen=80, MaxExports=3072, KnownSummaries="TRUE"),
                   what="authorizers and refiners assembled from random calls of every kind over packages with imports, extrinsics and old preimages; machines of their own running random programs"),
              mc("RefineModel", "one refinement making every short sequence of calls: machines apart, lowest free identifiers, exports in order and bounded, failures without effect",
                 dict(MaxCalls=4, Offset=1, MaxExports=2, KnownSummaries="FALSE", NumVals=6, NumCores=2, QueueLen=80), dict(MaxCalls=6, Offset=1, MaxExports=2, KnownSummaries="FALSE", NumVals=6, NumCores=2, QueueLen=80),
                 "Clean Bounded Dense", "Apart LowestId OnlyExpunge InOrder Appended Fails Where Charged Reads", view="View")],
      "Result, output, gas used and exported segments of each run compared with the specified machine's; nested machines are run by the specification too.")

check("C28", [dict(kind="trace", name="gossip", driver="gossip", mode="", n={"quick": 10, "thorough": 120}, spec="GossipTrace", consts={},
                   what="two real nodes and a peer played by the driver over the loopback network: announcements and requests of blocks of every size, cut and bunched anyhow, next to streams that mean nothing and connections that close and come back"),
              dict(kind="trace", name="author-heard", driver="author", mode="", n={"quick": 3, "thorough": 12}, spec="ChainTrace", consts=dict(TINY, Watch="{}", Judge="{}"),
                   what="what a node authors, fetched by a peer that hears its announcement"),
              mc("GossipModel", "every way announcements and blocks travel octet by octet from an author to peers that may leave",
                 dict(Peers='{"p", "q"}', Blocks="{1, 3}", MaxTold=2, Mortal='{"q"}'), dict(Peers='{"p", "q"}', Blocks="{1, 2}", MaxTold=3, Mortal='{"q"}'), "InTurn NothingMore Ready Settled", "Reached")],
      "Blocks are compared octet for octet by their digests; waiting is bounded by 12 s per event, so an alarm is a block that did not come in that time.")

check("C29", [dict(kind="trace", name="crypto", driver="crypto", mode="", n={"quick": 60, "thorough": 600}, spec="CryptoTrace", consts={},
                   what="signatures, output proofs and ring proofs over rings with repeated, swapped and unusable keys: checked as made, under other keys, rings, contexts and messages, altered, spliced, and bent by their maker with a point of small order"),
              mc("CryptoModel", "every way a few holders sign, dishonest ones bend their outputs, and anyone puts any signature to any question",
                 dict(Keys="{1, 2}", Bad="{2}", Ctxs="{1, 2}", Msgs="{1, 2}", Checked="TRUE"), dict(Keys="{1, 2, 3}", Bad="{2}", Ctxs="{1, 2}", Msgs="{1, 2}", Checked="TRUE"),
                 "OnlyMade OneOutput Tickets SameBothWays")],
      "Signatures are ideal in the specification: who made which over what is recorded, never computed; forging is sampled by alterations and by one algebraic attack.")

_author = dict(TINY, Watch=setof(ALLC), Judge=setof(RULES))
check("C30", [dict(kind="trace", name="race", driver="author", mode="race", n={"quick": 14, "thorough": 100}, spec="ChainTrace", consts=_author,
                   what="the author taking its turn while the importer is given a valid or invalid block of another, started at random moments around each other, with the clock going on meanwhile"),
              dict(kind="trace", name="sched", driver="sched", mode="", n={"quick": 10, "thorough": 100}, spec="ChainTrace", consts=_author,
                   what="the schedulers of up to six nodes over one storage while time passes evenly, in small steps and in leaps over several slots; blocks of others now and then"),
              dict(kind="trace", name="clock", driver="clock", mode="", n={"quick": 800, "thorough": 4000}, spec="ClockTrace", consts={},
                   what="the slot, the time left in it and whether a slot lies ahead, read at and around the boundaries of slots while the clock goes on"),
              mc("TurnsModel", "every order of wakes after leaps in time, rival blocks good and bad, and steps of the jobs they start",
                 dict(MaxSlot=3, Mine="{2, 3}", MaxRivals=2, Locked="TRUE"), dict(MaxSlot=4, Mine="{2, 3, 4}", MaxRivals=2, Locked="TRUE"),
                 "Serial Whole Forward Own Used", "Settles")],
      "Each history is judged as one in which author and importer waited for each other, in the order the blocks ended up in; a second node taking the same blocks one by one must hold the same state.", assumptions=[SIG])

check("C31", [dict(kind="trace", name="pool", driver="pool", mode="", n={"quick": 240, "thorough": 3000}, spec="PoolTrace", consts={},
                   what="calls one after another on pools of 0 to 100 places; six threads handing in and reading the same lists at once, with the moments each call began and ended"),
              mc("PoolModel", "every interleaving of threads that hand in and read over the pool's two locks",
                 dict(Adders='{"a", "b", "c"}', Readers='{"x", "y"}', Items="{1, 2, 3}", Max=2, OneOrder="TRUE"), dict(Adders='{"a", "b", "c"}', Readers='{"x", "y", "z"}', Items="{1, 2, 3}", Max=2, OneOrder="TRUE"),
                 "Bounded Once Same Seen", "Ends")],
      "Concurrent calls are judged by the moments they began and ended: each must have taken effect in between.")

check("C32", [chain("turns", 11, 120, ALLC, RULES, "blocks of every content whose parallel parts take turns as drawn, one access to the state at a time, imported by two nodes with different schedules"),
              mc("StepsModel", "every order in which the accesses of the steps of a block's transition can follow each other", dict(Careless="{}"), dict(Careless="{}"), "OneOutcome NoRace", "Ends")],
      "Verdict, state and root under each drawn schedule compared with the specified transition, which knows no schedule. Half of the runs of every other check draw schedules too.", assumptions=[SIG])

HOOKS = dict(guard="cargo feature `schedule` of fr-state", enable="harness/Cargo.toml depends on fr-state with features = [\"schedule\"]", source_commits=["e81ab6bf799dc31d9a710287dfe95aa1439fec44"])
NOT_APPLICABLE = []
