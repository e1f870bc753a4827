"""The properties, and how each is checked."""

COOP = "goroutines are switched only where they block or yield, on one processor: no pre-emption between two such points"

SIMS = {
    "appsim": {
        "module": "sim", "package": "appsim", "go": "1.25",
        "distinct": "distinct hashes over every answer (results, events, validator updates) of every replica, among runs with at least 5 accepted transactions",
        "fault_keys": ["crash", "power_loss", "disk_", "restart", "save_failed"],
        "real": ["app.ShutterApp (all ABCI calls, voting, DKG registration, nonce tracking, persistence)", "shmsg signing and decoding",
                 "shutterevents encoding and decoding", "tendermint types.ValidatorSet.UpdateWithChangeSet"],
        "stub": ["tendermint consensus and block store (blocks are generated; on restart the blocks above the reported height are replayed, as tendermint's handshake does)",
                 "disk durability (real files in a scratch directory; an overlay of package os tracks fsync and injects faults)", "clock (virtual)"],
        "assumptions": ["tendermint delivers the same blocks in the same order to every node and replays blocks above the height the application reports",
                        "package-level variables of the application survive a simulated crash, because the replicas share a process"],
    },
    "keysim": {
        "module": "sim", "package": "keysim", "go": "1.25", "single": True, "run_limit": 120,
        "distinct": "distinct hashes over the logged history (chain contents, decisions, messages, transactions, crashes) and the sequence of goroutine switches, among runs in which a DKG succeeded",
        "fault_keys": ["fault_"],
        "real": ["keyper.Keyper complete: observers, decider, DKG, epoch key generation, actions, message and transaction senders, state and action persistence",
                 "app.ShutterApp as the shuttermint application", "the Solidity contracts (compiled bytecode of the binding, executed by go-ethereum's EVM)",
                 "tendermint RPC server and client, go-ethereum RPC server and client, net/http, websockets over simulated connections",
                 "shlib (puredkg, shcrypto) as pinned by shuttermint's go.mod"],
        "stub": ["tendermint consensus and mempool (one block per second, every node sees the same blocks)", "main chain consensus and transaction pool (blocks every 2 s, reorganisations)",
                 "network (in-memory connections)", "disk durability (real files; an overlay of package os tracks fsync and injects crashes)", "clock and goroutine scheduler (virtual time, seeded choice among runnable goroutines)",
                 "users (encrypt with the announced eon key, submit to the batcher contract)", "Byzantine keypers (a real keyper whose outgoing messages are changed, dropped or added to)"],
        "assumptions": [COOP,
                        "renames survive a power loss once they returned (ext4 with auto_da_alloc)",
                        "main chain reorganisations are not deeper than the follow distance and keep the keypers' transactions; a node that is exchanged for one that is behind is so while the keyper is not in the middle of a synchronisation step",
                        "at most min(n-t, t-1) keypers of a config are Byzantine"],
    },
    "obssim": {
        "module": "sim", "package": "obssim", "go": "1.25", "single": True, "run_limit": 120,
        "distinct": "distinct hashes over the logged history (blocks, views, crashes, restarts) and the sequence of goroutine switches, among runs with at least 10 compared views",
        "fault_keys": ["fault_"],
        "real": ["observe.SyncShutter and observe.SyncMain with everything below them: shutterevents, contract bindings and caller, gob persistence of the views",
                 "the Solidity contracts (compiled bytecode of the binding, executed by go-ethereum's EVM) for the main chain view",
                 "tendermint RPC server and client, go-ethereum RPC server and client, net/http, websockets over simulated connections"],
        "stub": ["chain consensus (blocks appended by the simulator; main chain reorganisations)", "shuttermint block contents (events made by the real MakeABCIEvent methods, plus malformed ones)",
                 "main chain actors (users, keypers, the owner)", "network (in-memory connections)", "clock and goroutine scheduler (virtual time, seeded choice among runnable goroutines)"],
        "assumptions": [COOP, "main chain reorganisations and switches to a node that is behind stay within the follow distance",
                        "a shuttermint node that is behind takes over only between two synchronisations, not between two requests of one",
                        "the transactions of a block are indexed by the time its successor is shown"],
    },
}

SIMS["dkgsim"] = {
    "module": "libsim", "package": "dkgsim", "go": "1.23", "cgo": "1",
    "distinct": "distinct hashes over every message, delivery, outcome and result of a run, among runs in which a DKG succeeded or a message was decrypted",
    "fault_keys": ["fault_"],
    "real": ["shlib/puredkg (the DKG state machine, all phases)", "shlib/shcrypto (polynomials, shares, keys, encryption, decryption, padding, encoding)", "the BLS12-381 implementation (blst)", "encoding/gob"],
    "stub": ["network (a simulated channel per recipient, or an ordered log)", "crash and restart (a party's state is what it stored with gob)", "crypto/rand's source (seeded, also failing or short)",
             "misbehaving parties (made by the simulator with its own polynomial arithmetic)"],
    "assumptions": ["one thread: shlib has no concurrency of its own (one goroutine per value would race in the library's user)", "at most min(n-t, t-1) parties misbehave",
                    "parties agree on the order in which messages are delivered relative to the phase changes, as on shuttermint, except where a run says a message is withheld"],
}

APP = "shuttermint/app/app.go"
A_TECH = "deterministic simulation of application replicas under crashes, disk faults and lag, seeded search, "
A_NOTE = ("Seeded random exploration: thousands of short runs of 2-4 real application replicas; a clean batch is evidence, not proof. "
          "Trusts the simulated tendermint (block order, replay on restart) and the simulated disk's durability model. ")
A_RULE = ("A run is a seeded genesis, a stream of blocks mixing honest campaigns (config proposals, check-ins, DKG traffic, votes, signatures, shares) with replays, "
          "forgeries and garbage, executed by 2-4 replicas with lag, mempool traffic, crashes before any ABCI call or file operation, power loss and disk errors. "
          "Non-trivial: at least 5 transactions were accepted.")

O_TECH = "deterministic simulation of the real observer against a faulty node, with crashes and restarts, seeded search, "
O_NOTE = "Seeded random exploration: hundreds of runs of several minutes of simulated time; a clean batch is evidence, not proof. Trusts the simulated nodes' RPC answers. "
O_RULE = ("A run is a seeded chain with generated contents and one real observer process behind the real RPC stack, with requests that fail, hang or are answered late, broken connections, "
          "node lag, switches to a node that is behind, bursts of blocks, slow readers, crashes at any request and restarts from a saved view. Non-trivial: at least 10 views were compared.")

PROPS = {
    "A01": {
        "sim": "appsim", "rule": A_RULE,
        "title": "All nodes executing the same blocks compute the same results",
        "statement": "Any two correct shuttermint nodes that execute the same sequence of blocks return the same transaction results, events, validator updates and commit results for every block. "
                     "Nothing local to a node - its clock, the mempool traffic it saw, when it saved its state, its memory layout - influences them, and no block makes a node stop working.",
        "over": ["histories", "schedules", "inputs"],
        "quant": "every sequence of blocks with any transactions, and every difference between the nodes in time, mempool traffic, lag and persistence",
        "why": "Tests run one application instance once; a divergence needs two instances that saw the same blocks under different local conditions, or an unlucky map iteration order.",
        "files": [APP, "shuttermint/app/powermap.go", "shuttermint/app/checktx.go"],
        "mech": [("sorted validator updates", "app/powermap.go ValidatorUpdates"), ("separate mempool state", "app/checktx.go"), ("block execution", "app/app.go DeliverTx, EndBlock, Commit")],
        "technique": A_TECH + "differential oracle between replicas", "note": A_NOTE + "Decides by comparing every answer of every replica with replica 0's.",
    },
    "A02": {
        "sim": "appsim", "rule": A_RULE,
        "title": "A node that crashes restarts and continues as if it never had",
        "statement": "A shuttermint node that crashes at any moment - between any two calls, in the middle of saving its state, with or without loss of data that was never synced - can be started again from what its disk holds. "
                     "After replaying the blocks above the height it reports, it gives exactly the answers a node that never crashed gives, to every later block; failing or full disks while saving neither stop the node nor damage the last saved state.",
        "over": ["crash_points", "fault_sequences", "histories"],
        "quant": "every crash point, every torn, lost, short or failed write during saving, every history before and after",
        "why": "Tests save and load small states in memory-like conditions; no test crashes in the middle of a save, loses unsynced data or compares later behaviour with a node that did not crash.",
        "files": [APP], "mech": [("write to temporary file, sync, rename", "app/app.go PersistToDisk"), ("height reported to tendermint", "app/app.go Info"), ("load", "app/app.go LoadShutterAppFromFile")],
        "technique": A_TECH + "differential oracle against a replica that never crashed", "note": A_NOTE + "Decides by comparing every answer of recovered replicas with those of a replica that never crashed.",
    },
    "A03": {
        "sim": "appsim", "rule": A_RULE,
        "title": "Each signed message takes effect once, for its signer, on its chain",
        "statement": "A transaction takes effect only if it carries a valid signature, and then only on behalf of the address that signed it, on the chain it names, and at most once: a second delivery of the same message, or another message of the same sender with the same random nonce, changes nothing, also across restarts. "
                     "A well-formed message that was not delivered before is never turned away as a replay. Arbitrary bytes are rejected without effect and without disturbing the node.",
        "over": ["inputs", "histories", "crash_points"],
        "quant": "every transaction byte string, every order and repetition of transactions, every crash in between",
        "why": "Tests check single hand-made messages; replays need histories (repetition across blocks and restarts), forgeries need the space of damaged, malleated and re-encoded transactions.",
        "files": [APP, "shuttermint/app/noncetracker.go", "shuttermint/shmsg/encode.go"],
        "mech": [("nonce tracking", "app/noncetracker.go"), ("signer recovery", "shmsg/encode.go GetSigner"), ("chain id check", "app/app.go DeliverTx")],
        "technique": A_TECH + "reference model of the message envelope", "note": A_NOTE + "Every delivery is judged by an independent model of signatures, chain ids and nonces.",
    },
    "A04": {
        "sim": "appsim", "rule": A_RULE,
        "title": "Batch configs are adopted and started only by enough keyper votes",
        "statement": "A new batch config is adopted exactly when as many keypers of the newest adopted config as its threshold demands have voted for that identical config, one vote each; outsiders' votes, repeated votes, malformed or unsatisfiable configs, and configs whose index does not increase or whose start batch decreases never count. "
                     "Adoption is announced with the config's exact content. The newest config is started only when a threshold of the keypers of the config before it have voted to start that very config.",
        "over": ["histories", "inputs", "crash_points"],
        "quant": "every sequence of votes for competing configs and config starts by members and outsiders, in every order, interleaved with other traffic and restarts",
        "why": "Tests vote for one config in one order; carry-over between votes, contested votes and odd thresholds need long mixed histories.",
        "files": [APP, "shuttermint/app/configvoting.go", "shuttermint/keyper/shutterevents/batchconfig.go"],
        "mech": [("config voting", "app/configvoting.go"), ("validity checks", "app/app.go checkConfig"), ("start votes", "app/app.go deliverBatchConfigStarted, EndBlock")],
        "technique": A_TECH + "reference model of config governance", "note": A_NOTE + "Config votes, announcements and (through the validator set) starts are judged by an independent model.",
    },
    "A05": {
        "sim": "appsim", "rule": A_RULE,
        "title": "The validator set follows the started config and the check-ins",
        "statement": "After every block the validator set that results from all announced updates is exactly the one the newest started config with enough checked-in keypers calls for: equal power for the validator key each keyper checked in with (once, unchangeable), and a placeholder validator for those that have not; before that it is the genesis set. "
                     "The announced updates are always ones tendermint accepts.",
        "over": ["histories", "inputs", "crash_points"],
        "quant": "every interleaving of config changes, starts and check-ins with any keys, across restarts",
        "why": "Tests diff fixed power maps; sequences of overlapping configs, shared keys and late check-ins are not explored, nor is tendermint's own acceptance of the updates.",
        "files": [APP, "shuttermint/app/powermap.go"],
        "mech": [("power maps", "app/powermap.go"), ("validator updates", "app/app.go EndBlock, CurrentValidators"), ("check-in", "app/app.go deliverCheckIn")],
        "technique": A_TECH + "reference model plus tendermint's real validator set", "note": A_NOTE + "The updates are applied to tendermint's own validator set code and the outcome compared with an independent model.",
    },
    "A06": {
        "sim": "appsim", "rule": A_RULE,
        "title": "Eons start when called for, and admit each DKG message exactly once",
        "statement": "A new eon, numbered one higher than the last, is announced exactly when an adopted config changes the keypers or the threshold, or when a threshold of a config's keypers votes for the same start batch. "
                     "A DKG message is accepted and published unchanged exactly when its sender and all addressed peers are distinct keypers of an existing eon, it is well formed, and it is the first of its kind from that sender (for evaluations: to each receiver) in that eon; everything else is rejected and publishes nothing.",
        "over": ["histories", "inputs", "crash_points"],
        "quant": "every interleaving of DKG traffic of several eons, votes and config changes, valid and invalid, across restarts",
        "why": "Tests register a handful of messages with one instance; mixed eons, partial duplicates and restarts between messages are not explored.",
        "files": [APP, "shuttermint/app/dkg.go", "shuttermint/app/eonvoting.go", "shuttermint/app/messages.go", "shuttermint/keyper/shutterevents/events.go"],
        "mech": [("message registration", "app/dkg.go"), ("eon voting", "app/eonvoting.go"), ("eon start", "app/app.go StartDKG, ShouldStartDKG")],
        "technique": A_TECH + "reference model of eons and DKG admission", "note": A_NOTE + "Acceptance, published content (decoded with the keyper's decoder) and eon numbering are judged by an independent model.",
    },
    "A07": {
        "sim": "appsim", "rule": A_RULE,
        "title": "Decryption signatures and key shares are published once and unaltered",
        "statement": "A decryption signature is accepted exactly when its sender is a keyper of the batch's config and has not signed that batch before, and is then published with its exact content and sender; key shares that decode to a group element are published with exact content and sender, others are rejected. "
                     "This holds for every batch, whatever configs are adopted before or after, and across restarts.",
        "over": ["histories", "inputs", "crash_points"],
        "quant": "every interleaving of signatures and shares for any batches with config changes and restarts",
        "why": "Tests add signatures to a single batch state; config changes between signatures of a batch and restarts are not explored.",
        "files": [APP, "shuttermint/app/batch_state.go", "shuttermint/keyper/shutterevents/events.go"],
        "mech": [("batch states", "app/batch_state.go"), ("event encoding", "keyper/shutterevents/events.go")],
        "technique": A_TECH + "reference model of signature admission", "note": A_NOTE + "Acceptance and published content are judged by an independent model.",
    },
    "A08": {
        "sim": "appsim", "rule": A_RULE,
        "title": "Mempool admission is limited to keypers, ten fresh messages per block",
        "statement": "A node admits a transaction to its mempool exactly when it is decodable, for this chain, from a keyper of some adopted config, neither executed nor admitted before in the current block interval, and its sender has had fewer than ten admitted since the last block. "
                     "The limits reset with every block, and no sender's traffic uses up another sender's allowance.",
        "over": ["histories", "schedules", "inputs"],
        "quant": "every interleaving of mempool requests with block execution, config changes, commits and restarts",
        "why": "Tests call the counter directly; interleavings of admissions with block execution and membership changes are not explored.",
        "files": ["shuttermint/app/checktx.go", APP],
        "mech": [("admission state", "app/checktx.go"), ("reset", "app/app.go Commit"), ("membership", "app/app.go updateCheckTxMembers")],
        "technique": A_TECH + "reference model of mempool admission", "note": A_NOTE + "Every admission decision of every replica is judged by an independent model that follows the same interleaving.",
    },
}

K_TECH = "deterministic whole-system simulation of a shutter deployment (keypers, shuttermint, main chain contracts) under seeded schedules, crashes, network, disk and Byzantine faults, "
K_NOTE = ("Seeded random exploration: some sixty runs of whole deployments per quick check; a clean batch is evidence, not proof. Trusts the simulated chains and network. "
          "Goroutines are switched at blocking points only. ")
K_RULE = ("A run is a seeded deployment of 3-5 keypers (with possible later joiners, a config change, Byzantine members within the bound), users sending transactions into 4-8 batches, and a fault schedule "
          "(crashes at any file operation or RPC call, lost responses, stalls, partitions, lagging or switched nodes, reorganisations, lost and delayed transactions) followed by a quiet period. "
          "Non-trivial: at least one DKG succeeded.")
KP = "shuttermint/keyper/"

PROPS.update({
    "K01": {
        "sim": "keysim", "rule": K_RULE,
        "title": "Honest keypers agree on every DKG's outcome, and it is the one the chain implies",
        "statement": "When the DKG of an eon is over, every honest keyper that took part concludes exactly what the DKG messages on the shuttermint chain imply: the same set of disqualified dealers, hence the same eon public key and public key shares as every other honest keyper, and a secret share matching its own public share - or failure, exactly if too few dealers qualify or it was left without a valid evaluation. "
                     "No behaviour of Byzantine keypers within the bound, no crash, restart, delay or loss of messages makes honest keypers diverge, accuse a dealer whose messages are in order, commit twice or finish early.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories"],
        "quant": "every interleaving of chain progress, crashes at any point, message loss and delay, and every Byzantine behaviour within the bound, in every DKG",
        "why": "Tests run one DKG in memory with handed-over messages; crashes between deciding and sending, restarts from disk, late messages and malformed dealings need whole runs.",
        "files": [KP + "decide.go", KP + "keyper.go", KP + "observe/shutter.go"],
        "mech": [("DKG driver", "keyper/decide.go handleDKGs, syncDKGWithEon"), ("DKG state and its persistence", "keyper/decide.go State, keyper/keyper.go saveState"), ("views of the chain", "keyper/observe/shutter.go")],
        "technique": K_TECH + "reference DKG computed from the chain", "note": K_NOTE + "The outcome is recomputed independently from the messages on the chain and compared with every honest keyper's state.",
    },
    "K02": {
        "sim": "keysim", "rule": K_RULE,
        "title": "Failed DKGs are repeated until the keypers have an announced eon key",
        "statement": "An honest keyper checks in with its own keys, votes for the next config of the main chain with its exact content, deals to everybody in every DKG it hears of in time, accuses every dealer that wronged it and answers every accusation. If its DKG failed - and only then - it votes to start it again; when a threshold of keypers failed, a new eon starts. Once faults have stopped, a DKG run by honest keypers with at most the tolerated number of Byzantine ones succeeds, every honest keyper that has the eon key announces exactly that key on the main chain, and a config scheduled on the main chain is adopted by shuttermint.",
        "over": ["schedules", "fault_sequences", "histories"],
        "quant": "every fault sequence that eventually stops, every Byzantine behaviour within the bound",
        "why": "Progress after arbitrary fault sequences is a property of whole runs; no test restarts a keyper in the middle of a DKG or runs more than one eon.",
        "files": [KP + "decide.go", "shuttermint/app/eonvoting.go", KP + "fx/actions.go"],
        "mech": [("restart votes", "keyper/decide.go"), ("announcing the key", "keyper/fx/actions.go EonKeyBroadcast"), ("voting for configs", "keyper/decide.go maybeSendBatchConfig")],
        "technique": K_TECH + "progress within a bounded time after the last fault", "note": K_NOTE + "Checked on keypers' decisions as they are saved and on the chains at the end of each run.",
    },
    "K03": {
        "sim": "keysim", "rule": K_RULE,
        "title": "Nothing that decrypts a batch leaves an honest keyper before the batch is closed",
        "statement": "An honest keyper publishes its key share for a batch only after the main chain block that closes the batch is at least the configured follow distance deep in its view; it sends each polynomial evaluation only encrypted to the receiver it is meant for, reveals one in the clear only to answer an accusation on the chain, and never commits to two polynomials in one eon. "
                     "Crashes, restarts, lagging or switched nodes and Byzantine peers do not change that.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories"],
        "quant": "every interleaving, crash point and fault sequence, every message an honest keyper ever sends",
        "why": "A test cannot see every message of every run; premature or misdirected messages follow from unusual orders of block arrival, restarts and resends.",
        "files": [KP + "decide.go", KP + "observe/mainchain.go"],
        "mech": [("when shares are sent", "keyper/decide.go publishEpochSecretKeyShares"), ("follow distance", "keyper/observe/mainchain.go SyncToHead"), ("encrypted evaluations", "keyper/decide.go sendPolyEval")],
        "technique": K_TECH + "invariant over every message sent, decrypted with every keyper's key", "note": K_NOTE + "Every message handed to a shuttermint node by an honest keyper is judged when it is sent.",
    },
    "K04": {
        "sim": "keysim", "rule": K_RULE,
        "title": "A threshold of valid key shares gives every honest keyper the batch's one correct key",
        "statement": "Every secret key an honest keyper derives for a batch belongs to the eon's public key, exists only if a threshold of valid shares is on the shuttermint chain, and exists in every honest member with that eon's key once it has processed the chain up to the share that completes the threshold - whatever invalid, duplicate, early or late shares Byzantine keypers send and wherever it crashed or filtered its view. The shares honest keypers publish are valid, and each of them publishes its own once it sees that the batch is closed, unless it is too late to execute the batch.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories"],
        "quant": "every order of valid and invalid shares relative to DKG completion, batch closing, restarts and view filtering",
        "why": "Tests feed shares to one object in order; the losses that matter arise from restarts, filtering of the observed state, and shares that arrive before they can be used.",
        "files": [KP + "epochkg/epochkg.go", KP + "decide.go", KP + "observe/shutter.go"],
        "mech": [("epoch key generation", "keyper/epochkg/epochkg.go"), ("handling shares", "keyper/decide.go syncEKGs"), ("filtering", "keyper/observe/shutter.go ApplyFilter")],
        "technique": K_TECH + "reference key derivation from the chain", "note": K_NOTE + "Keys in every saved state are verified against the eon key, and against the shares on the chain.",
    },
    "K05": {
        "sim": "keysim", "rule": K_RULE,
        "title": "What a keyper has decided is saved first, then done, in order, and not forgotten",
        "statement": "A keyper sends only messages and transactions that a saved decision contains; decisions are numbered without gap and never change once saved; shuttermint messages go out in the order decided, each at least once, and more than once only after a failure. A crash at any point - also while saving, also with loss of unsynced data - loses no saved decision, and once faults stop all pending actions are carried out or dropped for cause.",
        "over": ["crash_points", "schedules", "fault_sequences", "histories"],
        "quant": "every crash point between any two file operations or RPC calls, torn or lost unsynced writes, every failure of RPC calls and loss of their responses",
        "why": "Tests never crash a keyper; the dangerous points lie between saving the state, saving the pending actions, sending and recording that something was sent.",
        "files": [KP + "keyper.go", KP + "fx/pending.go", KP + "fx/runenv.go", KP + "fx/actions.go"],
        "mech": [("state before actions", "keyper/keyper.go runOneStep, saveState"), ("pending actions file", "keyper/fx/pending.go"), ("running actions", "keyper/fx/runenv.go")],
        "technique": K_TECH + "history check of decisions against sends", "note": K_NOTE + "Every saved state and every message and transaction handed to a node is recorded and compared across restarts.",
    },
    "K06": {
        "sim": "obssim", "rule": O_RULE,
        "title": "A keyper's view of shuttermint is exactly what the chain says up to its block",
        "statement": "At every block a keyper's view of shuttermint claims to be at, it contains every event of the chain up to that block exactly once and in order, and nothing else (but for what the keyper itself no longer asked for): check-ins, configs, eons, DKG messages, key shares, signatures. The view only moves forward, never claims a block its node has not committed, views handed out do not change, a view that was saved is the one restored, lookups answer from it correctly, and malformed events, floods of transactions, connection loss, node lag, node switches and crashes neither corrupt nor stop it: once faults end it catches up.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories", "inputs"],
        "quant": "every chain content, every point at which a request fails, a connection breaks or the process dies, every filter and reading pace",
        "why": "The tests apply a few events to an empty view; lost, doubled or reordered events come from reconnections, paging, partial synchronisation and restarts between particular requests.",
        "files": [KP + "observe/shutter.go", KP + "shutterevents/events.go"],
        "mech": [("synchronisation", "keyper/observe/shutter.go SyncShutter, SyncToHead, fetchAndApplyEvents"), ("filtering and cloning", "keyper/observe/shutter.go ApplyFilter, ShallowClone, Clone"), ("reading events", "keyper/shutterevents/events.go, marshal.go")],
        "technique": O_TECH + "comparison of every view with the generated chain", "note": O_NOTE + "The oracle knows what it put into the blocks before it was encoded.",
    },
    "K07": {
        "sim": "obssim", "rule": O_RULE,
        "title": "A keyper's view of the main chain is exactly what the contracts say at a settled block",
        "statement": "At every block a keyper's view of the main chain claims to be at, it equals the state of the contracts at that block: scheduled configs (also after unscheduling), the transactions of every batch in order with their hashes, executed half steps and their receipts, deposits, accusations and appeals. That block is at least the follow distance below the newest block its node has shown, so no reorganisation within it ever shows; the view only moves forward, views handed out do not change, a saved view is the one restored, lookups agree with the contracts' own answers, and connection loss, failing requests, node lag and switches, reorganisations and crashes neither corrupt nor stop it: once faults end it catches up.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories", "inputs"],
        "quant": "every history of contract calls, every reorganisation within the follow distance, every point at which a request fails, a connection breaks or the process dies",
        "why": "The tests have no main chain node; lost or doubled events come from partial synchronisation, nodes falling behind and restarts, and wrong state from rarely used contract functions in unusual orders.",
        "files": [KP + "observe/mainchain.go", "shuttermint/contract/config.go"],
        "mech": [("synchronisation", "keyper/observe/mainchain.go SyncMain, SyncToHead"), ("follow distance", "keyper/observe/mainchain.go SyncToHead"), ("reading configs", "contract/config.go GetConfigByIndex")],
        "technique": O_TECH + "comparison of every view with the contracts' state at its block", "note": O_NOTE + "The oracle reads the contracts' storage and logs at the view's block directly.",
    },
    "K08": {
        "sim": "keysim", "rule": K_RULE,
        "title": "Honest keypers execute every batch exactly as submitted, decrypted and agreed",
        "statement": "An honest keyper executes a batch only after it is closed and that is follow-distance deep; it names the exact hash of the encrypted transactions on the main chain, and its transactions are the correct decryption of exactly those, in the shuffled order the epoch key determines, signed by a threshold of keypers; plain transactions are executed as submitted, in order; a batch is skipped only after its execution timeout, and until then keypers keep working on it: they publish their shares and sign the decryption. "
                     "Undecryptable transactions, reorganisations within the follow distance, restarts and Byzantine keypers do not change that.",
        "over": ["histories", "schedules", "fault_sequences", "inputs"],
        "quant": "every content of batches, every reorganisation within the follow distance, every interleaving and fault sequence",
        "why": "Tests do not run keypers against the contracts under faults; wrong or premature execution needs late transactions, reorganisations, lagging nodes or restarts at particular moments.",
        "files": [KP + "decide.go", KP + "fx/actions.go", KP + "observe/mainchain.go"],
        "mech": [("deciding to execute", "keyper/decide.go maybeExecuteBatch"), ("decrypting", "keyper/decide.go handleEpochSecretKeys"), ("executing", "keyper/fx/actions.go")],
        "technique": K_TECH + "reference decryption of the batches on the chain", "note": K_NOTE + "Every execution transaction of an honest keyper is compared with an independent decryption of the batch on the main chain.",
    },
    "K09": {
        "sim": "keysim", "rule": K_RULE,
        "title": "Only wrong executions are accused, and they are; right ones are defended",
        "statement": "An honest keyper signs only the correct decryption of a batch, for the contract and batch it belongs to; it accuses an executor only of an execution that is not the correct decryption, as itself; an execution an honest keyper knows to be wrong is accused on the main chain, and an honest executor accused over a correct, threshold-signed execution is defended by an appeal - whatever restarts, lags, reorganisations and false accusations occur.",
        "over": ["histories", "schedules", "fault_sequences"],
        "quant": "every order of execution, decryption, accusation and restarts, every Byzantine execution and accusation",
        "why": "Accusations and appeals depend on the order in which two chains are observed and on what a restarted keyper remembers; tests have neither.",
        "files": [KP + "decide.go", KP + "fx/actions.go", "contracts/contracts/KeyperSlasher.sol"],
        "mech": [("signatures", "keyper/decide.go"), ("accusing", "keyper/decide.go checkHalfSteps, sendAccusation"), ("appealing", "keyper/decide.go sendAppeals")],
        "technique": K_TECH + "reference decryption against receipts, accusations and appeals on the chain", "note": K_NOTE + "Signatures, accusations and appeals are judged against an independent decryption and the contracts' state.",
    },
    "K10": {
        "sim": "keysim", "rule": K_RULE,
        "title": "After any faults keypers recover by themselves and batches keep being executed",
        "statement": "No input from chains, nodes or other keypers and no sequence of faults crashes an honest keyper for good or makes it hang: told to stop, it stops; restarted by its supervisor and with its nodes reachable again, it catches up with both chains, resumes deciding, drains its pending actions, and every closed batch is executed or, after its timeout, skipped; a batch that closes well after the last fault, with the eon key known to all honest members, is executed and not skipped.",
        "over": ["schedules", "fault_sequences", "crash_points", "histories"],
        "quant": "every fault sequence that eventually stops, every Byzantine behaviour within the bound",
        "why": "Hangs and lost wake-ups depend on particular interleavings of connection loss, block arrival and restarts, which tests do not produce.",
        "files": [KP + "keyper.go", KP + "observe/shutter.go", KP + "observe/mainchain.go", KP + "fx/runenv.go", KP + "decide.go"],
        "mech": [("observers", "keyper/observe"), ("main loop", "keyper/keyper.go"), ("retrying actions", "keyper/fx/runenv.go")],
        "technique": K_TECH + "progress within a bounded time after the last fault", "note": K_NOTE + "Progress is stated within bounds on simulated time after the last fault.",
    },
})

L_NOTE = "Seeded random exploration: hundreds of runs per minute and process with 2-6 parties; a clean batch is evidence, not proof. The oracle has its own arithmetic of polynomials and shares; it shares the curve implementation (blst) with the library. "
PROPS.update({
    "S01": {
        "sim": "dkgsim", "title": "shlib's DKG gives all honest parties one key, which nobody chose",
        "rule": "A run is a DKG of 2-6 parties per eon over a network that delays, repeats, misroutes and withholds messages, with up to min(n-t,t-1) misbehaving parties (bad, missing, inconsistent commitments, evaluations, accusations, apologies), "
                "crashes before and after every step with a restart from the stored state, and failing randomness. Non-trivial: a DKG was completed.",
        "statement": "After the phases of shlib's distributed key generation every honest party has the same result: the same set of accepted dealers (every dealer that behaved, and none that left an accusation unanswered or dealt inconsistently), the same eon public key and public key shares, which belong to the sum of the accepted dealers' committed polynomials, and its own secret share of it. Too few accepted dealers are reported as failure by all. "
                     "Each honest party deals one fresh polynomial of the right degree and reveals an evaluation only to its receiver or when accused; it accuses exactly the dealers that wronged it and apologises exactly when accused; messages that are malformed, late, repeated, from or for the wrong party are turned away and change nothing. A party that stores its state and is restarted from it at any point goes on as if nothing had happened.",
        "over": ["schedules", "fault_sequences", "crash_points", "inputs", "histories"],
        "quant": "every order of deliveries within the phases, every behaviour of a tolerated number of misbehaving parties, every crash point between steps, every failure of the source of randomness",
        "why": "The tests run one DKG with honest parties in one order; agreement under misbehaviour depends on combinations of bad dealing, accusations and apologies, and restarts are not tested at all.",
        "files": ["shlib/puredkg/puredkg.go", "shlib/shcrypto/feldman.go", "shlib/shcrypto/keys.go", "shlib/shcrypto/encoding.go"],
        "mech": [("phases and messages", "shlib/puredkg/puredkg.go checkPhase, Handle*Msg"), ("storing", "shlib/puredkg/puredkg.go GobEncode, GobDecode"), ("result", "shlib/puredkg/puredkg.go ComputeResult"), ("polynomials and commitments", "shlib/shcrypto/feldman.go")],
        "technique": "deterministic simulation of several parties over a faulty network with misbehaving parties, crashes and restarts, seeded search, reference model of the DKG with its own arithmetic", "note": L_NOTE,
    },
    "S02": {
        "sim": "dkgsim", "title": "shlib decrypts with a threshold of shares exactly what was encrypted, and nothing else",
        "rule": "A run is an eon with shares of a random polynomial, several epochs and messages of any length encrypted for them, and parties that exchange epoch secret key shares and ciphertexts in encoded form over a network that loses, repeats, reorders and damages them, with wrong shares and keys from misbehaving parties and restarts from stored state. Non-trivial: a message was decrypted.",
        "statement": "A message of any length and content encrypted for an eon key and an epoch comes out unchanged when it is decrypted with the key computed from any threshold of that epoch's valid shares; all such sets give the same key, which passes verification against the eon key, and no other key does. A share is accepted exactly if it is the sender's for that epoch. A key of another epoch or eon, too few shares, or a ciphertext altered in any way yield an error, never a different message; encryption and decryption leave their inputs alone. "
                     "Everything that is encoded - points, keys, shares, ciphertexts, results stored with gob - decodes to an equal value, and bytes that are not such an encoding are refused without a crash.",
        "over": ["inputs", "schedules", "fault_sequences", "crash_points"],
        "quant": "every message, every subset and order of shares, every alteration of shares, keys and ciphertexts in transit, every restart from stored state",
        "why": "The tests use a few messages and untouched encodings; damaged and truncated encodings, unusual lengths and wrong subsets of shares are far more numerous.",
        "files": ["shlib/shcrypto/encryption.go", "shlib/shcrypto/keys.go", "shlib/shcrypto/encoding.go", "shlib/shcrypto/feldman.go", "shlib/shcrypto/shuffle.go"],
        "mech": [("encryption and padding", "shlib/shcrypto/encryption.go"), ("shares and keys", "shlib/shcrypto/keys.go"), ("encodings", "shlib/shcrypto/encoding.go")],
        "technique": "deterministic simulation of key holders and users over a network that loses, repeats, reorders and damages what is sent, with restarts, seeded search, reference model of keys and messages", "note": L_NOTE,
    },
})

SIMS["toolsim"] = {
    "module": "sim", "package": "toolsim", "go": "1.25", "single": True, "run_limit": 120,
    "distinct": "distinct hashes over everything logged (commands, their transactions and ends, blocks, faults) and the sequence of goroutine switches, among runs in which at least 3 commands succeeded",
    "fault_keys": ["fault_", "killed"],
    "real": ["the shuttermint commands, from cmd.Execute() with command line, flags and files on (cmd, cmd/config, cmd/prepare, cmd/deploy)", "app and keyper/fx's message sender (T02)", "contract/config.go, medley, medley/txbatch, the contract bindings",
             "the Solidity contracts (compiled bytecode of the binding, executed by go-ethereum's EVM)", "go-ethereum RPC server and client, websockets over simulated connections"],
    "stub": ["main chain consensus and transaction pool (blocks made by the simulator)", "tendermint consensus, pool and RPC server (T02; the application is real)", "network (in-memory connections)", "clock and goroutine scheduler (virtual time, seeded choice among runnable goroutines)",
             "the operator, who runs commands and repeats failed ones"],
    "assumptions": ["a transaction the node accepted is mined in the end, and blocks are final", "a request on its way when its command is killed has been processed by the time the next command starts, or never is",
                    "one operator works on the contract at a time (his other tools in between commands)", "package variables of the commands survive from one command to the next within a run, flags do not",
                    "files without duplicate keypers; batch spans that do not overflow the contract's arithmetic"],
}

T_NOTE = ("Seeded random exploration: hundreds of sessions of 4-14 commands per quick check; a clean batch is evidence, not proof. Trusts the simulated node's pool (nonces, pending state, gas estimates). ")

PROPS["T01"] = {
    "sim": "toolsim", "title": "The operator's commands leave the chain exactly as the given files say, however often they are interrupted",
    "rule": "A run is a session of an operator: 4 to 14 commands (config set-next, schedule, query, list; prepare configs, fund, unfund) in any order with generated files, some of them invalid, and changes to the contract by other tools in between. The node delays, fails, stalls and drops requests, lags or goes back, transactions wait in the pool; commands are killed at any request or file operation and run again, also while their transactions are still pending. Non-trivial: at least 3 commands succeeded.",
    "statement": "A command of shuttermint's config and prepare families that reports success has done what was asked. After `config set-next` the contract's next config is the file's, in every field and with exactly its keypers, whatever was there or pending before and however often earlier runs were interrupted; `config schedule --config` schedules that config or nothing, never a mixture. A start block and batch index chosen by the command continue the last config seamlessly and late enough for the contract to accept them. `config query` and `config list` print what the contract holds. "
                 "`prepare fund` leaves every listed account with at least half an ether and never pays one twice or above one ether; `prepare unfund` moves the given accounts' funds to the receiver only; `prepare configs` writes usable files and never overwrites existing keys. An invalid file sends nothing and fails, a failed transaction is reported, no command sends anything it was not asked for, crashes or hangs; and with a working node a command that asks for something possible succeeds.",
    "over": ["schedules", "fault_sequences", "crash_points", "inputs", "histories"],
    "quant": "every sequence of commands, every content of files and contract, every point at which a request fails, a transaction stays pending or the command dies",
    "why": "The tests have no main chain node; what remains after an interrupted run, or while its transactions are pending, is never seen by them.",
    "files": ["shuttermint/cmd/config/setnext.go", "shuttermint/cmd/config/schedule.go", "shuttermint/cmd/config/query.go", "shuttermint/cmd/config/list.go", "shuttermint/cmd/prepare/configs.go",
              "shuttermint/cmd/prepare/fund.go", "shuttermint/cmd/prepare/unfund.go", "shuttermint/contract/config.go", "shuttermint/medley/txbatch/txbatch.go", "shuttermint/medley/medley.go"],
    "mech": [("sending only the differences", "contract/config.go SetNextBatchConfig"), ("choosing the start", "cmd/config/setnext.go chooseStartBlockAndBatch"), ("waiting for transactions", "medley/txbatch/txbatch.go, medley/medley.go WaitMined"),
             ("topping up", "cmd/prepare/fund.go determineFundings"), ("file validation", "contract/config.go UnmarshalJSON")],
    "technique": "deterministic simulation of an operator's commands against a faulty node, with kills and repeats, seeded search, comparison of contract state and balances with the files after every command",
    "note": T_NOTE,
}

PROPS["T02"] = {
    "sim": "toolsim", "title": "deploy, init and bootstrap set up a network or say that they failed, and can be repeated when interrupted",
    "rule": "A run starts with a main chain without any of shutter's contracts and a shuttermint chain (real application) with 1 to 3 genesis keypers. The operator runs 4 to 14 of deploy, init and bootstrap in any order, also into existing directories and over existing files, with right and wrong keys and arguments, and schedules configs in between; both chains' nodes delay, fail and drop requests, the shuttermint chain stops for a while, transactions wait, file operations fail or are torn, and commands are killed at any request or file operation and repeated. In the end, without faults, deploy, init and bootstrap have to give a network. Non-trivial: at least 3 commands succeeded.",
    "statement": "If `deploy` reports success, all ten contracts it prints (and writes to its output file) exist, refer to each other as intended and belong to the given key, and the ERC1820 registry exists unless it was not asked for; a failed transaction is reported. If `init` succeeds, the directory is usable: configuration with the ports and block time asked for, a validator key with its state, a node key, a valid genesis file with that validator and the given keypers and a threshold of two thirds, and a loadable application state; existing keys and genesis files are never changed, and a directory in which an earlier init was killed at any point is completed by running it again. "
                 "If `bootstrap` succeeds, the shuttermint chain has accepted the batch config the contract holds and its start from the given key; a refused message is reported, and an interrupted bootstrap can be completed by repeating it. None of them sends anything else, crashes or hangs; with working nodes they succeed.",
    "over": ["schedules", "fault_sequences", "crash_points", "inputs", "histories"],
    "quant": "every sequence of commands, every point at which a request or file operation fails or the command dies, every state left by earlier commands",
    "why": "No test runs these commands; what an interrupted run leaves behind, and replies that are errors of another kind, are never seen.",
    "files": ["shuttermint/cmd/deploy/deploy.go", "shuttermint/cmd/deploy/contracts.go", "shuttermint/contract/erc1820/erc1820.go", "shuttermint/cmd/init.go", "shuttermint/cmd/bootstrap.go", "shuttermint/keyper/fx/messagesender.go", "shuttermint/medley/txbatch/txbatch.go"],
    "mech": [("deploying in one batch", "cmd/deploy/deploy.go batchContractDeployments"), ("ERC1820", "contract/erc1820 DeployContract"), ("keeping what is there", "cmd/init.go initFilesWithConfig"), ("sending a message and waiting for its result", "keyper/fx/messagesender.go SendMessage"),
             ("accepting the config", "app/app.go deliverBatchConfig, deliverBatchConfigStarted")],
    "technique": "deterministic simulation of an operator's commands against faulty nodes and a faulty disk, with kills and repeats, seeded search, comparison of chain state and files with what was asked after every command",
    "note": T_NOTE,
}

NOT_APPLICABLE = {}
