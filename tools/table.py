"""The properties, and per property the harness options and the bounds of its check. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, bounds, outside="", crates=("el",), opts=None, assumptions=(), state=(), observe=(), note=""):
    PROPS[id] = dict(title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=[dict(name=n, where=w) for n, w in mech],
        bounds=bounds, outside=outside, crates=list(crates), opts=opts or {}, assumptions=list(assumptions), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe=list(observe), note=note)


P("C01", "The stored sorted map is a set: no key is ever lost, duplicated or misordered",
  "After any sequence of insertions the on-chain sorted map contains exactly the distinct keys that were accepted, answers membership and position queries for each of them correctly, and its minimum and maximum are the true ones. A full map accepts a key below its maximum by handing out exactly that maximum and refuses every other key; a refused insertion leaves the map as it was, and each key keeps the value it was inserted with.",
  ["histories", "inputs"], "every insertion history from the empty map at small capacity with arbitrary 256-bit keys, and every single insertion into a consistent map of up to 36 entries at arbitrary keys",
  "the unit tests insert a few hand-picked and random sequences; the pointer updates at minimum, maximum, middle and full map only go wrong for particular relations between keys",
  ["elusiv/src/map.rs"], [("sorted singly linked list with skip pointers", "elusiv/src/map.rs:ElusivMap::try_insert"), ("skip search", "elusiv/src/map.rs:ElusivMap::binary_search")],
  "histories: capacity 3, 5 insertions (thorough: capacity 4, 6 insertions), all keys symbolic (256 bit); single insertions: full and growing maps of 8 entries and the last free slot (thorough: 32 and 36 entries, the skip-pointer path), all keys symbolic, physical order fixed to a representative permutation",
  "capacities between 36 and the production 2^16; there the code is the same loop with more skip pointers (C02 exercises the production size on windows)",
  opts={"c01_history_cap3": dict(jobs=4), "c01_mid_lastslot": dict(jobs=8), "c01_mid_full": dict(weight=3), "c01_mid_growing": dict(weight=3)})

P("C02", "A nullifier-hash is accepted at most once, and every accepted one stays recorded",
  "Once a nullifier-hash is inserted into a tree's nullifier account it is reported as present for ever, whatever is inserted later and however values move between the child accounts. A hash that is present cannot be inserted again, and inserting a new one never makes another one disappear.",
  ["histories", "inputs"], "every insertion (arbitrary 256-bit hash) into a completely filled first child account and into the second child, with an arbitrary existing maximum",
  "the integration tests insert a handful of nullifiers and never fill a child account of 2^16 entries, so overflow into the next child never happens in them",
  ["elusiv/src/state/nullifier.rs", "elusiv/src/map.rs"], [("search over child maxima", "elusiv/src/state/nullifier.rs:NullifierAccount::can_insert_nullifier_hash"), ("cascade of displaced maxima", "elusiv/src/state/nullifier.rs:NullifierAccount::try_insert_nullifier_hash")],
  "production capacities; first child full, second child with up to 2 entries; inserted hash arbitrary within stated windows around existing entries (first, middle, last) and arbitrary above the maximum", "more than two children in use")

P("C03", "The commitment and metadata queues are bounded FIFO queues",
  "Elements leave a queue in exactly the order in which they were accepted, each once and unchanged. An element is refused exactly if the queue is full, and an empty queue hands out nothing; looking at the queue never changes it.",
  ["histories", "inputs"], "every position of the ring pointers with every fill level near empty, half and full, and every history of six operations across the wrap-around, with arbitrary elements",
  "tests use queues of a handful of elements near the start of the ring; wrap-around with full or empty queue is a corner of 240 x 240 pointer states",
  ["elusiv/src/state/queue.rs", "elusiv/src/state/commitment.rs", "elusiv/src/state/metadata.rs"], [("ring pointers", "elusiv/src/state/queue.rs:RingQueue")],
  "production sizes (240 slots); all head positions; fill levels 0..3, 120, 237..239; histories of 6 operations starting at the last 3 positions", "histories longer than 6 operations, base commitment queues")

P("C04", "Queued commitments move into the hashing account only as whole batches, in order",
  "A batch is the shortest prefix of the queue that satisfies the batching rate of every member, all of one fee version. Placing it removes exactly these commitments from their queue, puts them in order into a free hashing account, stores the metadata of each of them in order, and only happens if the batch fits into the tree; a successful call that places nothing removes nothing.",
  ["inputs", "histories"], "every queue content of up to 5 commitments with arbitrary values, batching rates and fee versions, every tree fill level and hashing-account state, metadata present or absent, metadata position around a child-account boundary",
  "tests place one or two fixed batches with everything set up; the permissionless call that tolerates failure combined with missing metadata accounts or a full tree is not sampled",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/state/commitment.rs", "elusiv/src/state/metadata.rs"], [("batch selection", "elusiv/src/state/commitment.rs:CommitmentQueue::next_batch"), ("initialisation", "elusiv/src/processor/commitment.rs:init_commitment_hash")],
  "batches up to 4 commitments (rates 0..2) for the selection, up to 2 for the placement; queue near the wrap-around", "batching rates 3 and 4",
  opts={"c04_init_commitment_hash": dict(jobs=2)})

P("C06", "Every node of the commitment tree has its own place and reads back as written",
  "In the active tree each node (level 0 to 20) has a place of its own across the child accounts: writing one node changes that node only, reading returns what was last written or, where nothing was written, the default value of that level, and the opening of a leaf consists of exactly the sibling nodes on its path. The default values are those of a tree of zeros, so an empty tree has the well-known empty root.",
  ["inputs"], "every pair of nodes of the tree of 2^20 leaves, arbitrary stored values",
  "the tests touch a few leaves near the start of the tree; the place computation splits over 25 accounts and a bug shows at account boundaries only",
  ["elusiv/src/state/storage.rs"], [("node places", "elusiv/src/state/storage.rs:mt_array_index"), ("node access", "elusiv/src/state/storage.rs:StorageAccount::get_node"), ("opening", "elusiv/src/state/storage.rs:StorageAccount::get_mt_opening")],
  "all levels; indices arbitrary for the places; nodes written and read at stated windows of every level (start, end, account boundaries); stored values symbolic")

P("C07", "Exactly the last hundred roots of the active tree are accepted",
  "A Merkle root is accepted for the active tree if and only if it is the tree's current root or one of the hundred most recent ones (the empty tree has the empty root only), whatever batch sizes led there and whichever accounts an instruction is given. Resetting for the next tree forgets all of them.",
  ["histories", "inputs"], "every sequence of up to 3 (thorough: 4) batches of any size, histories around the wrap-around at 100 and 200 roots, an arbitrary 256-bit candidate root",
  "tests check a root right after one insertion; the interplay of batch size and root history needs several batches, and the wrap-around needs more than a hundred",
  ["elusiv/src/state/storage.rs", "elusiv/src/state/commitment.rs"], [("root history", "elusiv/src/state/commitment.rs:CommitmentHashingAccount::update_mt"), ("root check", "elusiv/src/state/storage.rs:StorageAccount::is_root_valid")],
  "up to 3 batches of rates 0..3 from the empty tree (thorough: 4 batches of rates 0..4); single batches after 0..2, 98..101, 199 and 250 earlier roots, rates 0..4; roots symbolic", "histories longer than 251 roots",
  opts={"c07_window": dict(jobs=4), "c07_batches": dict(jobs=2), "c07t_batches": dict(jobs=8)})

P("C08", "A batch is hashed from the right nodes and inserted at the right places",
  "Each hash of a batch takes exactly the left and the right node below it (batch members, inner results, or the siblings already in the tree), in that order. Only when all of them are computed is the batch inserted: leaves in order, each hash at its node, the last one as the root, and no other node of the tree changes; the leaves count only once everything is in place.",
  ["inputs", "histories"], "every batching rate, arbitrary commitments and siblings, every position in the tree (window for the insertion)",
  "tests hash one or two batches from an empty tree; left/right decisions depend on each of the 20 bits of the position",
  ["elusiv/src/state/commitment.rs", "elusiv/src/processor/commitment.rs"], [("hash inputs", "elusiv/src/state/commitment.rs:CommitmentHashingAccount::next_hashing_state"), ("insertion", "elusiv/src/state/commitment.rs:CommitmentHashingAccount::update_mt")],
  "rates 0..4; inputs at every aligned position; insertion at the first, last and middle positions of the tree; values symbolic (the Poseidon permutation itself: C09)")

P("C19", "Closing a full tree keeps its root, empties the tree and carries nothing over",
  "Anyone can close the active tree, but only when the next batch leaves no room in it. The closed tree keeps its final root, the next tree starts empty with the empty root, and no node, root or hash of the closed tree enters the next one. A batch that is being prepared, hashed or inserted at that moment is not lost: it is hashed again for the next tree.",
  ["histories", "inputs", "schedules"], "every tree fill level and queue content for the closing, and a closing at every stage of a batch's life",
  "the permissionless closing can be interleaved with a batch at any stage; the tests close trees with nothing in flight",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/state/commitment.rs", "elusiv/src/state/storage.rs"], [("closing", "elusiv/src/processor/commitment.rs:reset_active_merkle_tree"), ("restart of a batch", "elusiv/src/processor/commitment.rs:init_commitment_hash_setup")],
  "batching rates 0..2; closing before, after set-up, placement and hashing, and between the steps of the insertion", "rates 3 and 4")

P("C13", "Storing a commitment takes exactly the amount and the fees due",
  "Storing a base commitment takes from the sender exactly the amount, the network fee and the computation fees less the subvention, gives the pool the amount and the lamports for the computations, the fee collector the network fee (it pays the subvention), and the fee payer, who advances lamports for tokens, their token value; no lamports or tokens appear or vanish. Only amounts within the token's limits, the current fee version and batching rate, a recent commitment index, a canonical and new commitment and the right accounts with both payers' signatures are accepted, and a proper request with enough funds is accepted. The computation that follows is that of the requested commitment, amount, token and index.",
  ["inputs"], "all amounts, balances and fee parameters (SOL), all amounts at a fixed price (tokens), all recent indices, fill levels, fee versions, batching rates and token ids, every single account replaced",
  "tests store a few fixed amounts with one fee configuration; rounding, limits and fee sums that overflow are values they do not sample",
  ["elusiv/src/processor/commitment.rs", "elusiv/src/processor/utils.rs", "elusiv/src/state/fee.rs", "shared/elusiv-types/src/tokens.rs"], [("storing", "elusiv/src/processor/commitment.rs:store_base_commitment"), ("fees", "elusiv/src/state/fee.rs:ProgramFee")],
  "SOL: fees per transaction and rewards below 2^40, basis points 0/1/50/10000, batching rates 0..4, balances below 2^60; token: one token, price and fee configuration, all amounts and balances", "staleness and confidence of the price feed (the program does not check them)",
  opts={"c13_lamports": dict(jobs=8), "c13_token": dict(jobs=4), "c13_request": dict(jobs=4)})

P("C14", "The fees of a verification cover what is paid out, and its steps come in order",
  "Before its proof is set, a verification's fee payer reserves the hashing fee and, if an account has to be opened, its rent; the fee of the join-split plus the subvention covers everything the pool will pay out for it, the network fee is its share of the amount, and the amount covers the rent and the optional fee (and the rent-exemption of a SOL recipient). This happens once, in the current fee version, with the recorded fee payer and the program's own accounts, and a request with enough funds is accepted. Then the proof is set once, by the same fee payer; only the right verification key computes, in the right state, and never again once there is a result.",
  ["inputs", "histories"], "all amounts, fees, optional fees and balances; all fee parameters (without network fee); every state, result, key id and computation step; every single account replaced",
  "tests run the fee transfer with one or two fixed configurations and amounts; fee sums near the limits and every state/step combination are not sampled",
  ["elusiv/src/processor/proof.rs", "elusiv/src/state/fee.rs", "shared/elusiv-types/src/tokens.rs"], [("fees", "elusiv/src/processor/proof.rs:init_verification_transfer_fee"), ("proof", "elusiv/src/processor/proof.rs:init_verification_proof"), ("computation", "elusiv/src/processor/proof.rs:compute_verification")],
  "SOL: fee parameters below 2^40 with network fee 0, or one configuration with 1/50/10000 basis points; batching rates 0, 1, 4; 0, 9 or 140 preparation instructions; tokens at one price and fee configuration; balances below 2^60; the computation entered in instructions that do not compute (the pairing itself: not covered)", "the arithmetic of the pairing check",
  opts={"c14_lamports": dict(jobs=8), "c14_token": dict(jobs=4), "c14_compute": dict(jobs=4)})

P("C15", "A finalized SOL transfer pays everyone exactly what is due, once",
  "When a proved SOL transfer is finalized, the recipient gets the amount less the optional fee, the collector of the optional fee that fee, the fee payer its fees and the rent of the closed accounts, the fee collector the network fee, the pool pays exactly the sum of these and stays rent-exempt; the output commitment is queued once. An invalid proof pays nobody: the reserved fees go to the fee collector. With Solana Pay the last instruction of the transaction is the payment of exactly that amount from the fee payer to the recipient, and one payment never serves two transfers. A transfer can be finalized once, in the right state, with the right accounts only, and it can be finalized whenever the pool has the funds.",
  ["inputs"], "all amounts and fees (64 bit each), every verification state, every single account replaced by another one, every order of the payment instruction",
  "the tests finalize transfers with a few round amounts and no optional fee; sums of fees, zero amounts and shared payments are combinations they do not sample",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/utils.rs"], [("finalization", "elusiv/src/processor/proof.rs:finalize_verification_transfer_lamports")],
  "one verification (two for the shared payment) with one input; all amounts symbolic below 2^60 for balances; instruction lists of up to 4 instructions", "lists of more than 4 instructions",
  opts={"c15_valid": dict(jobs=8), "c15_solana_pay": dict(jobs=4), "c15_invalid": dict(jobs=2)})

P("C16", "A finalized token transfer pays everyone exactly what is due, once",
  "When a proved token transfer is finalized, the recipient's token account gets the amount less the optional fee and less the token value of the rent of an account opened for it, the optional fee collector and fee payer get exactly their fees, the fee collector the network fee and any amount that cannot be delivered, and nothing else moves; a reserved account rent goes back to the fee payer if and only if it was reserved. An invalid proof pays nobody else: what was reserved goes to the fee collector. Only the recorded accounts and the program's own token accounts are used, and it happens once.",
  ["inputs"], "all amounts and fees, every kind of recipient (valid, wrong mint, no token account, uninitialized, associated and existing, associated and missing), every verification state, every single account replaced by another one",
  "the tests finalize a few token transfers with existing recipients; the missing-account and undeliverable cases combine with fees in ways they do not sample",
  ["elusiv/src/processor/proof.rs", "elusiv/src/processor/utils.rs", "elusiv/src/token.rs"], [("finalization", "elusiv/src/processor/proof.rs:finalize_verification_transfer_token"), ("token transfer", "elusiv/src/processor/utils.rs:transfer_token")],
  "one verification with one input; all amounts symbolic, balances below 2^60; token program modelled (transfer of initialized accounts of one mint)", "delegates, frozen and native accounts; Solana Pay with tokens only by the shared check of C15",
  opts={"c16_valid": dict(jobs=8), "c16_invalid": dict(jobs=2)})

P("C18", "A verification is opened only for a join-split whose inputs can be spent",
  "A proof verification is opened only if every input names a root of the tree it is claimed for and a nullifier that is unspent there and used once in the request, at most four inputs of at most two different trees, an unused and non-zero output commitment, a recent commitment index, a known and checked verification key, amounts that add up without overflow, and the right accounts. The nullifiers are then reserved, so that no second verification of them is opened by accident, the commitment is remembered, and the public inputs the proof is checked against are exactly those of the request. A request that fulfils this is accepted.",
  ["inputs"], "all amounts, optional fees, recent commitment indices and tree fill levels, every combination of known, old, unknown and missing roots and of spent, unspent and repeated nullifiers, every replaced account",
  "the tests sample a handful of wrong requests; repeated nullifiers across two trees and sums that overflow are combinations they miss",
  ["elusiv/src/processor/proof.rs", "elusiv/src/types.rs", "elusiv/src/state/nullifier.rs", "elusiv/src/state/storage.rs"], [("initialization", "elusiv/src/processor/proof.rs:init_verification"), ("input checks", "elusiv/src/processor/proof.rs:check_join_split_public_inputs"), ("public inputs", "elusiv/src/types.rs:SendPublicInputs::public_signals")],
  "up to 2 inputs (thorough: 3; 0 and 5 for the shape); roots and nullifiers among representative values (current, old, unknown, missing; spent and unspent); amounts and indices fully symbolic",
  "4 inputs with several roots; the zero root of a tree account that is not closed yet is accepted by design (an existing test expects it; no proof can use it)",
  opts={"c18_inputs": dict(jobs=8), "c18t_inputs": dict(jobs=8)})

P("C20", "A finalization spends the nullifiers before it pays, in one transaction",
  "Only a verification whose proof is set and checked can be finalized. After a valid proof this takes one transaction in which the finalization is followed by nullifier insertions and then directly by the payout of the right kind, all naming the same verification; amount, token and earliest place of the output commitment it publishes are the true ones. The nullifiers are inserted one at a time in order, each exactly once, and the verification can pay out exactly when all of them are spent; if one was spent meanwhile, nothing is paid. An invalid proof spends nothing and only releases its own output commitment.",
  ["inputs", "schedules", "histories"], "every state and result, all published amounts, indices and tree positions, every list of up to four following instructions with arbitrary account indices, every order of up to four nullifiers with any one of them spent meanwhile",
  "the instruction check is disabled in the unit tests, and only the expected instruction orders are tested elsewhere",
  ["elusiv/src/processor/proof.rs", "elusiv/src/state/nullifier.rs"], [("finalization", "elusiv/src/processor/proof.rs:finalize_verification_send"), ("required instructions", "elusiv/src/processor/proof.rs:enforce_finalize_send_instructions"), ("insertion", "elusiv/src/processor/proof.rs:finalize_verification_insert_nullifier")],
  "up to 4 following instructions of 6 kinds with arbitrary indices; up to 4 inputs whose nullifiers come in any order; queue lengths 0..2", "the accounts that the following instructions are given (the program only compares their index argument)",
  opts={"c20_instructions": dict(jobs=8), "c20_insert": dict(jobs=6), "c20_data": dict(jobs=2)})

P("C21", "Recipient, fee collector and messages of a proof cannot be replaced",
  "A send can only be finalized with exactly the recipient, identifier, encrypted owner, initialization vector, transaction reference, token-account flag, metadata, optional fee and its collector, and memo which the proof's hashed inputs were computed from; a finalization with exactly these is accepted, and that recipient is the one recorded for the payout.",
  ["inputs"], "all values of all these fields, on the side of the proof and on the side of the request and finalization independently",
  "tests finalize with matching data, or change one field to one other value",
  ["elusiv/src/processor/proof.rs", "elusiv/src/types.rs"], [("hashed inputs", "elusiv/src/types.rs:generate_hashed_inputs"), ("comparison", "elusiv/src/processor/proof.rs:finalize_verification_send")],
  "all fields symbolic on both sides; memos of 0, 1, 30 and 40 bytes or none (an empty memo counts as none), in both positions; SHA-256 is treated as collision-free on the 253 bits kept", "other memo lengths; the Solana Pay flag and the amount, which are not part of the hashed inputs",
  opts={"c21_binding": dict(jobs=8), "c21_memo": dict(jobs=8)}, assumptions=["SHA-256 is collision-free (on the 253 bits that are kept)"])

P("C10", "Fees accepted for a version are consistent and pay for the hashing",
  "Fees are only set for the current version, once, and only if no subvention exceeds the fee it is for at any batching rate; then the fees of every request can be computed. Each instruction of a batch's hashing pays its fee payer the compensation of the batch's fee version, exactly once, and all of them together cost no more than the batch's commitments paid in. A computed base commitment is finalized once, for its fee payer and in its fee version, pays exactly the fee collected for it, and queues exactly the computed commitment with its parameters.",
  ["inputs", "histories"], "all fee parameters (below 2^40), fee versions, balances and computation positions; every instruction of a batch's hashing at every batching rate",
  "the tests use one fee configuration; limits hit only at certain batching rates and rounding is not sampled",
  ["elusiv/src/state/fee.rs", "elusiv/src/processor/commitment.rs", "elusiv/src/processor/accounts.rs"], [("validity", "elusiv/src/state/fee.rs:ProgramFee::is_valid"), ("new version", "elusiv/src/processor/accounts.rs:init_new_fee_version"), ("payment", "elusiv/src/processor/commitment.rs:compute_commitment_hash"), ("base commitments", "elusiv/src/processor/commitment.rs:finalize_base_commitment_hash")],
  "fee parameters below 2^40, balances below 2^60; the hashing of batches of rates 0 and 1 (thorough: 2..4) with fixed nodes", "fee parameters of 2^40 lamports and more (sums wrap around there); the repeated hashing of a batch after its tree was closed, which the pool pays again",
  opts={"c10_batch": dict(jobs=8), "c10t_batch": dict(jobs=8), "c10_validity": dict(jobs=8)})

P("C05", "Recently stored commitments are remembered, and refused a second time",
  "The buffers of recent commitments (of stored and of proved ones) remember exactly the last 128 accepted values: a value is refused if and only if it is one of them, a refused value changes nothing, an accepted one only replaces the oldest, and it stays remembered for the next 127 insertions. A value that is released is forgotten at once, and no other.",
  ["histories", "inputs"], "every number of earlier insertions around empty, half full, full and the wrap-around, and every value, among stored values with long common prefixes",
  "the tests compare against values far from each other and do not insert beyond one round of the ring",
  ["elusiv/src/buffer.rs", "elusiv/src/bytes.rs", "elusiv/src/state/commitment.rs"], [("ring buffer", "elusiv/src/buffer.rs:RingBuffer"), ("search", "elusiv/src/bytes.rs:find")],
  "production size (128 values of 32 bytes); 7 fill levels (thorough: 13, for both buffers) up to 257 insertions; stored values concrete, differing from each other in one of 4 bytes; the searched value arbitrary in these 4 bytes and one more", "arbitrary stored values",
  opts={"c05_insert": dict(jobs=8), "c05_release": dict(jobs=8)})

P("C11", "Token amounts are exact, limited, and converted at the right price",
  "Amounts of different tokens are never mixed; sums and differences are exact or refused. Only amounts within the limits of a known token are accepted. A conversion between lamports and a token uses only the price accounts of that token and SOL, never a negative or missing price, and gives the value at these prices, but for rounding down and the precision of prices. Only an initialized token account of the token's mint counts as one that can receive it, and only a wallet's own associated account as that.",
  ["inputs"], "all amounts and token ids; all amounts below 2^51 for conversions at given prices; all token account contents, owners and keys",
  "tests convert a few round amounts with friendly prices; normalisation and scaling lose digits only for particular sizes",
  ["shared/elusiv-types/src/tokens.rs"], [("amounts", "shared/elusiv-types/src/tokens.rs:Token"), ("price", "shared/elusiv-types/src/tokens.rs:TokenPrice"), ("token accounts", "shared/elusiv-types/src/tokens.rs:verify_token_account")],
  "conversions: amounts below 2^51, one pair of prices in each direction (thorough: 8 pairs for 7 tokens in both); relative precision 2.5e-7", "other prices; confidence and age of a price (the program does not check them)",
  opts={"c11_lamports": dict(jobs=8), "c11_tokens": dict(jobs=8), "c11t_lamports": dict(jobs=8), "c11t_tokens": dict(jobs=8)})

P("C12", "Lamports are moved exactly, and accounts are opened once at their address",
  "A payout from an account of the program moves exactly the requested lamports and leaves the account rent-exempt, or fails and moves nothing; closing one moves all its lamports. A payment of a wallet goes through the system program only and needs its signature. An account of the program can only be opened at its own derived address, once, rent-exempt, paid by a payer who signs, and starts with its bump and version and zeros.",
  ["inputs"], "all amounts and balances (64 bit), account sizes, bumps, offsets, and every wrong program or account",
  "the unit tests stub the rent and the system program",
  ["shared/elusiv-utils/src/lib.rs"], [("payout", "shared/elusiv-utils/src/lib.rs:transfer_lamports_from_pda_checked"), ("opening", "shared/elusiv-utils/src/lib.rs:open_pda_account")],
  "four account sizes; one kind of account for the opening, with three offsets", "")

P("C24", "Only its authority changes a verification key, and a frozen one never changes",
  "The key that proofs are checked with is only replaced by the authority of the key account, as long as it is not frozen, by activating a next version that was registered in an unused account of the right size; activating one always works, closes the account it replaces and counts the version. Data can only be written to the next version, never to the active one, and exactly at the place named. A frozen key stays frozen, and only the authority names another authority.",
  ["inputs", "histories"], "every state of the key account (with and without active and next version, frozen or not, any version and authority), every signer, signature, data position, account size and owner",
  "the unit tests stub the program calls and check a few states; replacing an active version was never executed for real",
  ["elusiv/src/processor/vkey.rs", "elusiv/src/state/vkey.rs", "elusiv/src/processor/accounts.rs"], [("modification", "elusiv/src/processor/vkey.rs:update_vkey_version"), ("data", "elusiv/src/processor/vkey.rs:set_vkey_data"), ("child account", "elusiv/src/processor/accounts.rs:setup_child_account")],
  "keys for 2 public inputs; first and last two data packets, 4 symbolic bytes of each; three possible signers", "a key without authority (then anyone may change it, by design)")

P("C25", "Child accounts are registered once and found exactly; accounts open once",
  "Only an unused account of the program, of the right size and rent-exempt, becomes a child account, for a free place, once, of one account; its content is kept (or reset, where it is a map). An instruction only works on a child account that is registered, in its place, owned by the program and writable where it is written; those given in order are all found. The accounts of the program are opened once, at their own addresses, with the right sizes and initial values, by a payer who signs; those of a later version only while nothing is queued or hashed.",
  ["inputs", "histories"], "every place (and those just outside), neighbours taken or not, all sizes around the right one, owners, balances, previous use; every list of up to 3 (thorough: 4) accounts given to an instruction",
  "the unit tests register one account and look up matching lists",
  ["elusiv/src/processor/accounts.rs", "shared/elusiv-types/src/accounts.rs"], [("registration", "elusiv/src/processor/accounts.rs:setup_child_account"), ("lookup", "shared/elusiv-types/src/accounts.rs:ParentAccount::find_child_accounts"), ("opening", "elusiv/src/processor/accounts.rs:open_single_instance_accounts")],
  "storage, metadata and nullifier accounts: first and last two places; lookups with two places; 9 data bytes of a child account symbolic", "child accounts that follow unknown accounts in the list (they are skipped)")

P("C23", "Every instruction only works on its own accounts, signed where needed",
  "Every instruction is processed when it is given its own accounts, each in its place, and does its work on these. It is refused if an account of the program is given at another address, if it is one of the same kind for another index, tree, key, fee version or fee payer, if a signature it needs is missing, if a data account belongs to another program, if accounts or instruction data are missing, or if it is unknown. Different accounts of the program never share their seeds.",
  ["inputs"], "every instruction, every one of its accounts replaced by the same content at any other address or by its sibling, every signature removed, every foreign owner, every truncation",
  "the integration tests, which need a validator, send correct lists; the checks are generated by a macro and never tested with wrong accounts",
  ["elusiv/src/instruction.rs", "elusiv/src/entrypoint.rs", "shared/elusiv-derive/src/elusiv_instruction.rs", "shared/elusiv-types/src/accounts.rs"], [("dispatch", "elusiv/src/entrypoint.rs:process_instruction"), ("generated checks", "shared/elusiv-derive/src/elusiv_instruction.rs:impl_elusiv_instruction"), ("addresses", "shared/elusiv-types/src/accounts.rs:PDAAccount::verify_account")],
  "one valid state for each of the 32 implemented instructions, one flaw at a time; other addresses differ in 4 arbitrary bytes (in a fixed one where an address is derived from them)", "ArchiveClosedMerkleTree and UpgradeGovernorState (not implemented: always abort); the owner of accounts whose address is checked; accounts which are given twice")

W = "elusiv-warden-network/src/"
NOVAL = "the integration tests, which need a validator, take a few examples; no test that runs without one covers this"
P("C31", "Wardens and operators register once and only change their own state",
  "A warden registers under the key that signs, once, with the next number (given to no one else), while the network has room: its account holds exactly what it stated, not yet active, attested or confirmed, and one member with its features, tokens and region is added. Only the warden itself changes whether it is active (the time of a change is kept) and its lookup table, and nothing else. The operator a warden names, and no one else, confirms it; a warden that names none is adopted by the operator that confirms. An operator registers once, with its own key.",
  ["inputs"], "all statements of a warden (lengths fixed), times, numbers and signers; every fill level around the limits; accounts that exist already",
  NOVAL, [W + "processor/basic_warden.rs", W + "processor/operator.rs", W + "network.rs", W + "warden.rs"], [("registration", W + "processor/basic_warden.rs:register_basic_warden"), ("members", W + "network.rs:BasicWardenNetworkAccount::try_add_member"), ("operators", W + "processor/operator.rs:confirm_basic_warden_operation")],
  "warden numbers 0, 3, 512 and 2^32 - 1 (addresses are derived from them); 0, 1, 300, 511 or 512 members; 16 bytes and all flags of a warden's statement symbolic", "whether a lookup table exists (not checked by design)", crates=("wn",), opts={"c31_register": dict(jobs=6)})
P("C32", "Only the authority names attesters, only they attest, and results are stored",
  "Only the attestation authority makes a warden an attester, in the attester's own account and once, or revokes it (the account is closed, its lamports returned); nothing else of the warden changes. Only a warden that is an attester attests, and only for a member of the network at its own place. The warden's account then holds the attested metadata and whether the warden had stated exactly these, and the network its attested region; nothing else changes.",
  ["inputs"], "all signers, warden and member numbers, statements and attested values; every previous result", NOVAL,
  [W + "processor/basic_warden.rs", W + "network.rs"], [("attestation", W + "processor/basic_warden.rs:attest_basic_warden_metadata"), ("attesters", W + "processor/basic_warden.rs:add_metadata_attester")],
  "members at places 0, 3, 511 and out of range; time zone locations of 3 bytes", crates=("wn",))
P("C33", "Activity of wardens is counted exactly, on the right day, for who pays",
  "Every moment of the years 2000 to 2099 has exactly one day and year, and no other moment has one. One activity is counted, exactly once, for its day, in total and in its kind (store or send), with the time noted, if and only if the previous instruction of the transaction is an instruction of elusiv that finalizes a commitment or a transfer, the year is the current one, and the warden pays for that instruction. In all other cases nothing changes, and an error is reported exactly if tracking may fail.",
  ["inputs"], "every timestamp; every instruction number, program, place of the warden among the accounts, counter value and previous time", NOVAL + "; the calendar's test takes one second per day",
  [W + "processor/utils.rs", W + "processor/basic_warden.rs", W + "warden.rs"], [("calendar", W + "processor/utils.rs:unix_timestamp_to_day_and_year"), ("tracking", W + "processor/basic_warden.rs:track_basic_warden_stats_inner"), ("counters", W + "warden.rs:WardenStatistics::inc")],
  "calendar: all 2^64 timestamps; counting: 5 days (every second of them), instructions with 2 or 6 accounts and up to 2 instructions", "counters at 2^32 - 1", crates=("wn",))
P("C34", "The genesis network takes six wardens once each and confirms with their keys",
  "While some quote is missing, a warden applies once, under its own number: it becomes the next of at most six members, with the first half of its quote and the exchange key embedded in it. It completes its own application, in its own place, and no other. When all quotes are complete, and only then, each member confirms once, with the key of its quote and the hash of all quotes in order; with the last confirmation, and not before, the network is confirmed.",
  ["inputs"], "all member numbers, quote contents (64 bytes around the key), messages, signers, and every combination of progress listed in the bounds", NOVAL,
  [W + "network.rs", W + "processor/apa_warden.rs"], [("network", W + "network.rs:ApaWardenNetworkAccount"), ("applications", W + "processor/apa_warden.rs:start_apa_genesis_warden_application")],
  "0 to 6 members; completed quotes: none, the last, alternating, all; confirmations: none, first, last, alternating, all but one, all; SHA-256 of concrete quotes", "CompleteApaGenesisNetwork (not implemented); the validity of quotes (checked by the wardens off-chain)", crates=("wn",), opts={"c34_confirm": dict(jobs=6)})
P("C35", "Proposals are numbered, carry their real proponent and claim no foreign role",
  "A proposal has the next number and is stored once, unchanged but for its proponent (who signs) and time (now), which are always the real ones; its target gets an account, once. Who proposes as the freezing authority of a token names a known token, gives that token's mint and is its freeze authority; a token a proposal names is a known one.",
  ["inputs"], "all contents of a proposal, mints, authorities, claimed proponents and times", NOVAL,
  [W + "processor/apa.rs", W + "apa.rs"], [("proposals", W + "processor/apa.rs:propose_apa_proposal")],
  "proposal numbers 0, 6 and 2^32 - 1; 2 targets; tokens: none, SOL, first, last, one unknown; 16 bytes of the reason", "the proposal registered for a target (not implemented)", crates=("wn",), opts={"c35_propose": dict(jobs=8)})
P("C36", "Every warden network instruction only works on its own accounts",
  "Every instruction of the warden network is processed when it is given its own accounts, each in its place, and does its work on these. It is refused if an account of the program is given at another address, if it is one of the same kind for another number, year or key, if the signature of the warden, operator, attester or payer it needs is missing or another's, or if accounts or instruction data are missing, or if it is unknown.",
  ["inputs"], "every instruction, every one of its accounts replaced by the same content at another address or by its sibling, every signature removed, every truncation", "the integration tests, which need a validator, send correct lists and a few wrong signers",
  [W + "instruction.rs", W + "entrypoint.rs", "shared/elusiv-derive/src/elusiv_instruction.rs"], [("dispatch", W + "entrypoint.rs:process_instruction"), ("generated checks", "shared/elusiv-derive/src/elusiv_instruction.rs:impl_elusiv_instruction")],
  "one valid state for each of the 16 implemented instructions, one flaw at a time", "CompleteApaGenesisNetwork (not implemented)", crates=("wn",))
V = "elusiv/src/proof/verifier.rs"
P("C09", "A verification cut into many instructions computes exactly the pairing check",
  "The verification of a proof, executed in instructions over many transactions with all its state kept in an account, computes the same as the Groth16 verifier: the prepared inputs are the constant term plus the inputs' multiples (however the rounds are distributed over instructions), the Miller loop gives the product of the three pairings' Miller loops (points at infinity contribute nothing), the final exponentiation follows, and the proof is valid if and only if the result is the key's alpha-beta pairing in every coefficient. There is no result before the last instruction and nothing is computed after it. Every value of a key is read from its own place, and the preparation of any inputs is cut into instructions that together do all rounds, each within its compute units.",
  ["inputs", "schedules"], "all coordinates of the points of a proof, of the prepared inputs and of the key's coefficients; every split of the input preparation into two calls; all positions and window values of a key's tables",
  "the tests compare a few fixed proofs with arkworks; one swapped coefficient, a round lost between two instructions, or a table offset that is wrong for one window survives unless the sampled proofs hit it (and these tests need dependencies that are not available offline)",
  [V, "elusiv/src/proof/vkey.rs", "elusiv/src/state/proof.rs", "elusiv/src/fields.rs", "elusiv-interpreter/src"], [("partial verification", V + ":verify_partial"), ("Miller loop", V + ":combined_miller_loop"), ("final exponentiation", V + ":final_exponentiation"), ("input preparation", V + ":prepare_public_inputs"), ("cost of the preparation", V + ":prepare_public_inputs_instructions"), ("key tables", "elusiv/src/proof/vkey.rs:VerifyingKey")],
  "the whole computation (all 215 + 17 instructions, every round) with symbolic points and coefficients; input preparation with 2 inputs of which 15 windows are not zero, every distribution into one round per instruction, into two instructions, and the program's own; tables for 14 inputs, every entry; the compute cost of 1, 2, 7 and 14 inputs of 5 kinds",
  "points for which an intermediate value of the curve arithmetic happens to be zero (general position: values of measure zero are left out, except zero inputs, windows and the point at infinity); the real compute units of an instruction (the costs the program assigns are used)", crates=("pf",),
  opts={"c09_infinity": dict(jobs=4), "c09_verification": dict(jobs=3), "c09_splits": dict(jobs=4), "c09_key": dict(jobs=4)},
  assumptions=("arkworks' pairing (Bn254::miller_loop, final_exponentiation) and its field towers are the specification; arithmetic in the base field is exact (executed as polynomials over Z/q in normal form; an equality that normal forms do not decide is evaluated at random points: a difference is a counterexample, no difference ends the check without a verdict)",))
P("C29", "A proof counts only if it consists of points of the right groups",
  "A proof is never found valid if one of its points does not lie on its curve, if a coordinate is not reduced, or if its second point is the point at infinity or outside the group of prime order, even if the pairing equation holds for its coordinates. Proofs whose points lie in the groups and fulfil the equation are found valid.",
  ["inputs"], "all values of each of the eight coordinates that take the point off its curve; every coordinate once unreduced; three points outside the group, of large order, of order 10069 and the generator plus the latter",
  "the tests verify proofs made by a prover, whose points are always valid; a malicious proof is never sampled",
  [V, "elusiv/src/fields.rs", "elusiv/src/processor/proof.rs"], [("proof", "elusiv/src/processor/proof.rs:init_verification_proof"), ("last step", V + ":final_exponentiation"), ("points", "elusiv/src/fields.rs:G1A::is_valid"), ("points", "elusiv/src/fields.rs:G2A::is_valid"), ("group", V + ":is_in_g2")],
  "one coordinate symbolic at a time (general position), the others fixed; unreduced coordinates: 6 of the 8, by one modulus; 3 points outside the group; the whole verification from the Miller loop on; the key's alpha-beta pairing is chosen so that the equation holds",
  "that every point outside the group is refused (this is algebra: the norm of 6x + 2 + psi - psi^2 + psi^3 is coprime to the cofactor)", crates=("pf",), opts={"c29_points": dict(jobs=8)},
  assumptions=("arithmetic in the base field is exact (polynomials over Z/q in normal form)",))
