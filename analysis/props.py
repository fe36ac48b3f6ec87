"""The properties this framework decides: text (properties.jsonl), rule module, explanation (evidence, DESIGN.md).

tools/gen.py writes properties.jsonl and MANIFEST.json from this file; registry.py takes the rule module from it."""

FLOW = "path-sensitive provenance dataflow over rustc MIR"
SPECT = "decision-table extraction from rustc MIR compared with a specification table"
STUBS = ("the stub crates in /verif/stubs declare the same interface as the dfinity crates they stand in for "
         "(they only serve type checking; none of their code is analysed as the system's behaviour)")
MODELS = "models of std collections/iterators, ledger calls and timers in analysis/models.py"
ATOMIC = "the Internet Computer runs the code between two suspension points atomically and rolls it back when it traps"

PROPS = []


def P(pid, title, statement, over, text, why, files, mechanism, module, technique, how, assume=(STUBS, MODELS)):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        module=module, technique=technique, how=how, assume=list(assume)))


M = "minter/src/"

P("C01", "Each deposit event is minted at most once",
  "However often minting is retried, interrupted at an await, or trapped in the ledger's reply handler, one deposit log leads to at most one "
  "successful ledger mint: a minted deposit is recorded as minted (or quarantined) before it can be offered to the ledger again, and a deposit that was "
  "already accepted, minted, or rejected is never queued again.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of the minting task with other messages, every trap point after a ledger call, every sequence of scraped logs",
  "The minting task is async canister code that the existing tests never execute; a trap between the ledger's reply and the recording of the result "
  "cannot be produced by a unit test.",
  [M + "deposit.rs", M + "state.rs", M + "state/audit.rs"],
  [("quarantine guard around each ledger mint, defused only once the outcome is known", M + "deposit.rs mint"),
   ("deposit bookkeeping by event source", M + "state.rs record_event_to_mint / record_successful_mint / record_quarantined_deposit")],
  "rules_deposit", "typestate (scope-guard) and path-sensitive provenance dataflow over rustc MIR",
  "Every path of the minting task from the queue to the ledger transfer and on to the recorded event is enumerated on the type-checked MIR. Typestate rules: a "
  "guard that quarantines exactly the offered deposit is alive across every ledger transfer and is defused only on outcomes that are recorded or retriable; the "
  "success path records a mint event for the same source; the bookkeeping functions reject a source that is already known, remove it from the queue and never "
  "add one that is already minted or rejected; nothing else writes that bookkeeping.", (STUBS, MODELS, ATOMIC))

P("C02", "A mint pays exactly the deposited amount, less the fee, to the depositor",
  "For every accepted deposit the ledger asked to mint is the ledger of the deposited token, the account credited is the one named in the deposit log, and "
  "the amount is the logged amount (less the configured deposit fee for native tokens). The recorded mint event names the same deposit and the block index the ledger returned.",
  ["inputs", "histories", "configurations"],
  "every deposit (native or ERC-20), every registered token and every fee setting",
  "Needs ledgers and a populated state; the existing tests do not run the minting task at all.",
  [M + "deposit.rs", M + "state.rs", M + "state/event.rs"],
  [("mint loop choosing ledger, amount and recipient", M + "deposit.rs mint"), ("deposit memo", M + "memo.rs")],
  "rules_deposit", FLOW,
  "The provenance of every argument of each ledger transfer reached from the minting task (ledger id, recipient, amount, memo) and of each field of the event "
  "recorded afterwards is computed symbolically per path and compared with the required source term.")

P("C03", "Only genuine, well-formed deposit logs are accepted, decoded faithfully",
  "A deposit is accepted only from a non-removed log with complete position data, the known event topic and a valid principal, and its fields are exactly those the "
  "log encodes. ERC-20 logs are accepted only for registered tokens; logs that cannot be decoded are recorded as invalid instead of being credited, and one bad log does not block the others.",
  ["inputs", "histories"], "every possible log entry and every set of registered tokens",
  "Tests sample a few well-formed logs, in modules that the reproducible build does not even compile; the guarantee is about all malformed ones.",
  [M + "deposit_logs/parser.rs", M + "deposit_logs/mod.rs", M + "deposit_logs/scraping.rs", M + "deposit.rs", M + "eth_types/mod.rs"],
  [("log parser", M + "deposit_logs/parser.rs"), ("registration of scraped events", M + "deposit.rs register_deposit_events")],
  "rules_scrape", FLOW,
  "All paths of the log parser, the principal decoder and the registration of scraped events are enumerated; for each path that yields an accepted deposit the rule "
  "checks which facts must have been established (not removed, topic, position fields present, token registered, principal prefix) and the provenance of each field.")

P("C04", "Scraping never skips a block",
  "The scan cursor advances only over block ranges whose logs were all fetched and registered (or over a single block explicitly recorded as skipped), the next range starts right "
  "after the cursor, and ranges end at the last observed block. The log request covers the helper contract, the deposit topic and the zero address plus every supported token.",
  ["fault_sequences", "inputs", "histories"],
  "every sequence of provider responses, errors and oversized answers, and every chain height",
  "The scraping loop needs RPC providers and the async runtime; no existing test reaches it.",
  [M + "deposit.rs", M + "deposit_logs/scraping.rs", M + "eth_types/mod.rs", M + "numeric/mod.rs"],
  [("scrape loop with range splitting", M + "deposit.rs scrape_logs / scrape_block_range"), ("log filter", M + "deposit.rs")],
  "rules_scrape", FLOW,
  "Every write of the scan cursor reachable from any entry point is collected and, per path, tied to the fetched range and to the registration of its events; the "
  "range splitting, chunking and filter construction are compared with the required terms.", (STUBS, MODELS, ATOMIC))

P("C07", "Persisted events keep their byte encoding and decode to what was stored",
  "Every event, request and amount written to stable memory decodes to the same value, and the field numbers and variant codes already in use never change meaning, so logs written by "
  "earlier versions stay readable. Amounts are encoded canonically at any size and stored addresses, hashes and principals round-trip.",
  ["inputs", "histories"], "every value of every persisted type, and every log written by an earlier build",
  "Unit tests round-trip a few values of two helper codecs; they cannot notice renumbered fields, because both sides of a round trip change together.",
  [M + "cbor/mod.rs", M + "cbor/u256.rs", M + "cbor/nat.rs", M + "cbor/id.rs", M + "cbor/principal.rs", M + "state/event.rs", M + "storage.rs", M + "numeric/mod.rs"],
  [("minicbor derive attributes", M + "state/event.rs"), ("hand-written codecs", M + "cbor"), ("stable-log Storable impls", M + "storage.rs")],
  "rules_types", SPECT + "; schema compatibility of derive attributes",
  "The layout given by the derive attributes of every type reachable from the event log (indices, variant codes, codecs in use) is extracted from the type-checked "
  "program and compared with the committed layout; the hand-written codecs' decision tables are compared with the encoding specification on all paths.")

P("C17", "Amount arithmetic never wraps and conversions never change the amount",
  "Addition, subtraction, multiplication and division of amounts, nonces and block numbers give the exact result or report overflow, never a wrapped value, and ordering follows the numeric value. "
  "Conversions to and from integers, byte strings, strings and candid numbers preserve the value or fail.",
  ["inputs"], "all pairs of 256-bit operands", "Tests sample operands; the guarantee is over all of them.",
  [M + "checked_amount/mod.rs", M + "numeric/mod.rs"],
  [("checked amount type", M + "checked_amount/mod.rs")],
  "rules_types", SPECT,
  "For every operation and conversion the full decision table (path condition -> result term) is extracted from MIR and compared with its specification.")

P("C20", "Addresses, hashes and hex strings are parsed and printed faithfully",
  "An address or hash string is accepted only when it is 0x followed by exactly the right number of hex digits and parses to those bytes; printing is the inverse (EIP-55 checksummed for addresses), and "
  "32-byte words convert to addresses only if their upper 12 bytes are zero. Withdrawals to the zero address or, for a destination string, to anything malformed are refused.",
  ["inputs"], "all strings and byte arrays", "Tests check a handful of strings.",
  [M + "eth_types/mod.rs", M + "address.rs"],
  [("address parser and EIP-55 printer", M + "eth_types/mod.rs"), ("destination validation", M + "address.rs validate_address_as_destination")],
  "rules_types", SPECT,
  "Decision tables of the parsers, printers and conversions are extracted from MIR (including slices bounds and nibble comparisons of the checksum loop) and compared with the specification.")

P("C21", "Supported chains map to their true chain ids, reversibly and persistently",
  "Every supported network has its registered EVM chain id, looking up a chain id returns the network with that id or an error, and the persisted codes of networks never change.",
  ["inputs", "configurations"], "all 64-bit chain ids and all networks",
  "Tests compare a few networks; the exhaustive inverse and the persisted codes are not tested.",
  [M + "evm_config.rs"], [("chain table", M + "evm_config.rs")],
  "rules_types", SPECT,
  "The lookup tables in both directions are extracted from MIR as exhaustive switch tables and compared with the registered ids and with each other; variant codes come from the type-checked attributes.")

P("C22", "Two-key maps keep their keys and values consistent",
  "A value inserted under a primary and an alternative key is found, replaced, listed and removed under either key; inserting a conflicting key is refused without changing the map, and "
  "drains return every entry exactly once.",
  ["inputs", "histories"], "every sequence of insertions, lookups, removals and drains",
  "Tests run short sequences of operations.",
  [M + "map.rs"], [("two-index map", M + "map.rs")],
  "rules_types", SPECT,
  "Per operation, all paths are extracted with the resulting content of both indices as symbolic terms and compared with the specification table (an inductive argument over any history).")

P("C25", "RPC client retries only for lack of cycles, boundedly, with enough cycles",
  "Each request goes to the configured canister with the method's name, the configured providers, that method's configuration and the caller's arguments. A call is repeated only while providers ask for more "
  "cycles and retries remain, each time attaching at least twice the previous cycles and at least what was asked for; otherwise the reply, or the rejection as a consistent error, is returned unchanged. "
  "The minter's own clients address the configured canister, start with 30 billion cycles and allow ten retries.",
  ["inputs", "fault_sequences"], "every sequence of replies and rejections of the RPC canister",
  "The only test samples one helper on one reply; the retry loop itself is never run.",
  ["evm_rpc_client/src/lib.rs", M + "rpc_client/mod.rs"], [("retry loop", "evm_rpc_client/src/lib.rs call_internal"), ("builder", "evm_rpc_client/src/lib.rs EvmRpcClientBuilder"), ("clients", M + "rpc_client/mod.rs RpcClient::from_state_*")],
  "rules_rpc", FLOW,
  "All paths of the six request functions are enumerated through the retry loop; the arguments of every outgoing call, the incoming values of the loop-carried cycles and retry counter, the facts on each "
  "back edge and the returned value are checked; builder methods are compared with specification tables, and the settings of every client the minter builds with a recorded table.")

P("C26", "Exported logs are complete, correctly labelled, ordered, and fit the size limit",
  "Exporting a priority yields every buffered entry of that priority with its own time, position, counter and text; sorting orders by time in the requested direction. "
  "The serialised log is the longest prefix of the entries that fits the requested size, whenever an empty log fits.",
  ["inputs"], "all buffer contents, sizes and sort orders", "Tests sample sizes and three-entry logs, and never read the buffers.",
  [M + "logs.rs"], [("log buffers and export", M + "logs.rs")], "rules_logs", FLOW,
  "Provenance of every exported field and buffer per priority; comparison closures of the sort calls; for the size limit, the facts under which each loop-carried candidate is kept and the search bounds' incoming values.")

RECT = "decision tables (path condition -> result, effects, calls) extracted from rustc MIR, compared with reviewed recorded tables"
RECHOW = ("The result is compared, path by path, with the table reviewed for this property and committed under analysis/tables: a path whose condition is compatible with a recorded row "
          "but whose result or effects differ is a violation and is reported with function and condition; code whose form the comparison cannot interpret gives no verdict and is listed as inconclusive.")

P("C08", "A withdrawal is recorded only after its tokens were burnt, with exact contents",
  "A withdrawal request is accepted only if the amount reaches the minimum, the destination is valid and the caller's tokens (and, for ERC-20, the gas fee and withdrawal fee) were taken by the ledgers first; the recorded request "
  "carries exactly the amount, destination, caller, ledger, burn indices and fee of that call. If a later step fails, what was already taken is refunded or queued for reimbursement, and nothing is recorded as a withdrawal.",
  ["inputs", "fault_sequences", "schedules"], "every withdrawal argument, every ledger reply or rejection at each step, every state changed by other messages meanwhile",
  "The endpoints talk to ledgers asynchronously; none of the existing tests compiles or runs them.",
  [M + "main.rs", M + "ledger_client.rs", M + "guard/mod.rs"],
  [("withdrawal endpoints", M + "main.rs withdraw_native_token / withdraw_erc20"), ("burns, fee transfer, refund", M + "ledger_client.rs")],
  "rules_tables", RECT,
  "All paths of both withdrawal endpoints and of the ledger client operations are enumerated through every suspension; each path is described by its condition, the sequence of ledger calls with "
  "their arguments and the guards held, the recorded events with every field, and the reply. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C10", "Failed withdrawals are reimbursed once, in full, to the right account",
  "A reimbursement pays the recorded amount to the recorded account on the ledger whose tokens were burnt, and is recorded as done with the index the ledger returned; a trap after the ledger call quarantines it instead of paying again. "
  "Each reimbursement leaves the queue when it is paid or quarantined, one failing payment does not block the others, and failed payments stay queued.",
  ["fault_sequences", "crash_points", "schedules", "histories"], "every queue of reimbursements, every ledger reply, every trap point",
  "A trap between the ledger's reply and the recording cannot be produced by a unit test; the module is not even compiled by the test build.",
  [M + "withdraw.rs", M + "state/transactions/mod.rs", M + "state/audit.rs"],
  [("reimbursement task", M + "withdraw.rs process_reimbursement"), ("reimbursement bookkeeping", M + "state/transactions/mod.rs")],
  "rules_tables", RECT,
  "The reimbursement task is enumerated through its suspensions with the guard held across each ledger call, and the effect of each reimbursement event on the state is extracted as a table. " + RECHOW,
  (STUBS, MODELS, ATOMIC))

P("C11", "One transaction per withdrawal, consecutive nonces, no re-spend on retry",
  "Each accepted withdrawal gets exactly one transaction nonce, nonces are consecutive, and a replacement keeps the nonce, destination and withdrawal of the transaction it replaces. Transactions are created, "
  "signed, sent and resubmitted in that order, each step only for the withdrawals that reached it, and an inconsistent step aborts instead of changing the state.",
  ["histories", "fault_sequences", "schedules"], "every history of withdrawals, fee changes, resubmissions, and provider errors",
  "Tests would need every history; none exists for these modules in the test build.",
  [M + "withdraw.rs", M + "state/transactions/mod.rs", M + "state/audit.rs"],
  [("withdrawal pipeline", M + "withdraw.rs"), ("transaction queues", M + "state/transactions/mod.rs")],
  "rules_tables", RECT,
  "For each event of the pipeline the table (condition on the queues -> new queues, or abort) is extracted, an inductive step valid for any history; the tasks that produce the events are enumerated through "
  "their suspensions, with the queue queries, signer, fee estimate and RPC calls they depend on. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C12", "Finalized transactions settle balances and failures exactly once",
  "A transaction is finalized only from a receipt of one of its sent versions once its nonce is finalized; the minter's native and ERC-20 balances then fall by exactly what the receipt says was spent, "
  "and a withdrawal is queued for reimbursement only if the transaction failed. Accepted deposits raise the balance of the deposited token by the deposited amount.",
  ["histories", "inputs"], "every history of sent versions and receipts and every receipt content",
  "Receipts, versions and states combine unboundedly; the existing tests do not touch this code.",
  [M + "withdraw.rs", M + "state.rs", M + "state/transactions/mod.rs", M + "tx.rs"],
  [("finalization task", M + "withdraw.rs finalize_transactions_batch"), ("settlement", M + "state.rs record_finalized_transaction"),
   ("queue bookkeeping", M + "state/transactions/mod.rs record_finalized_transaction")],
  "rules_tables", RECT,
  "The table of the finalization event (which balances, queues and reimbursements change to what, under which receipt) and the flow of the finalization task are extracted. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C13", "A withdrawal never costs more gas than was set aside for it",
  "The transaction created for a withdrawal transfers exactly the withdrawn amount, for native tokens minus the maximum gas cost, to the requested destination or the token contract, and its maximum gas cost never exceeds what the "
  "user paid; if that cannot cover the estimated cost the withdrawal is refused or rescheduled. A resubmission raises the priority fee by at least 10%, never lowers the price, stays within the same allowance, and otherwise is not made.",
  ["inputs", "histories", "schedules"], "all amounts, fee estimates, fee histories, prices and numbers of resubmissions",
  "Fees are 256-bit quantities combined by many branches; the existing tests do not compile this code.",
  [M + "tx.rs", M + "state/transactions/mod.rs", M + "withdraw.rs"],
  [("transaction creation", M + "state/transactions/mod.rs create_transaction"), ("resubmission", M + "tx.rs resubmit / resubmit_transaction_price"), ("fee estimate", M + "tx.rs estimate_transaction_fee")],
  "rules_tables", RECT,
  "Creation, resubmission, pricing and fee estimation are extracted as tables over symbolic 256-bit amounts (comparisons with symbolic bounds -> fields of the transaction or the error). " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C18", "What is signed and sent is the recorded transaction, signed by the minter's key",
  "The bytes hashed, signed and sent are the EIP-1559 encoding of exactly the recorded transaction; the signature is produced by the minter's own key over that hash, matched against the minter's public key before use, and the sent "
  "bytes and reported hash belong to that signature. ERC-20 transfer data encodes exactly the recipient and amount and decodes to the same values, and the minter's address is derived from the same key.",
  ["inputs", "fault_sequences"], "all transactions, access lists, call data, public keys and signer replies",
  "Encodings are recursive over unbounded lists and the signer is a remote service; no existing test covers them.",
  [M + "tx.rs", M + "state/transactions/mod.rs", M + "address.rs", M + "state.rs", M + "management.rs"],
  [("encodings", M + "tx.rs rlp_append / raw_transaction_hex"), ("signing", M + "tx.rs sign"), ("call data", M + "state/transactions/mod.rs TransactionCallData"), ("minter address", M + "address.rs")],
  "rules_tables", RECT,
  "Every encoder is summarised as the sequence of items it appends and every decoder as the table of accepted inputs; the signing flow is enumerated through its suspensions with the message hash, key, derivation path "
  "and checks on each path. " + RECHOW, (STUBS, MODELS))

P("C14", "Facts about the chain come only from agreeing providers",
  "A block, log list or receipt is accepted only if at least two providers answered and all successful answers are equal; a finalized nonce likewise, a latest nonce is the smallest of at least two answers, fees need a strict majority, and a "
  "transaction counts as sent once one provider accepts it. Anything else, including conversion failures, is reported as an error with every provider's answer, queries carry exactly the requested block, filter, address or hash, and go to the providers of the configured chain.",
  ["inputs", "fault_sequences"], "every combination of answers and errors of any number of providers, for every chain",
  "The number of providers and the answers are unbounded, and this code is not compiled by the test build.",
  [M + "rpc_client/mod.rs", M + "rpc_client/providers.rs"],
  [("reductions", M + "rpc_client/mod.rs ReducedResult"), ("per-method consensus", M + "rpc_client/mod.rs impl Reduce"), ("provider lists", M + "rpc_client/providers.rs")],
  "rules_tables", RECT,
  "Each request function, each per-answer-type consensus and each reduction is extracted as a table over symbolic provider answers (collections are summarised by a generic element); provider lists are extracted per chain. " + RECHOW, (STUBS, MODELS))

P("C16", "No user has two withdrawals, and no task two runs, in flight at once",
  "A withdrawal call proceeds only if its caller has no other withdrawal call in progress, fewer than 100 callers do, and fewer than 100 requests are queued; a background task (minting, scraping, sending, reimbursing, fee refresh) does nothing while it is already running. "
  "The exclusion covers every await of the call or task, uses that task's own key or that caller, and is lifted however the call or task ends.",
  ["schedules", "crash_points", "histories"], "every interleaving of user calls, timers and replies",
  "Interleavings of async canister code cannot be produced by the unit tests, which only create and drop guards.",
  [M + "guard/mod.rs", M + "deposit.rs", M + "withdraw.rs", M + "tx.rs", M + "main.rs"],
  [("caller and task guards", M + "guard/mod.rs"), ("tasks", M + "deposit.rs, withdraw.rs, tx.rs"), ("withdrawal endpoints", M + "main.rs")],
  "rules_tables", "typestate of guard values on rustc MIR (alive across every suspension point), call-graph reachability, decision tables of the guards",
  "For each task and withdrawal endpoint every suspension point on every path is collected together with the values whose destructor is still pending; the guard of that task (or of the calling principal) must be among them. Steps cut out of these "
  "runs must be unreachable from any entry point except through a guarded function. The guards' constructors and destructors are compared with recorded tables. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C23", "Installation and upgrade apply exactly the given settings and refuse bad ones",
  "Installing builds a state holding exactly the given settings and otherwise empty books, scanning from the block after the given one; an upgrade changes exactly the settings it names and leaves everything else alone; a zero fee means no fee. "
  "Amounts, nonces, block numbers or addresses that do not convert are refused, as is any resulting configuration with a blank key name, an anonymous ledger, a zero helper address, or a minimum withdrawal that is zero or below the ledger fee.",
  ["inputs", "configurations", "histories"], "every installation argument, and every combination of optional upgrade settings on every prior state",
  "The existing tests never build a state; the combinations are too many to sample and this code is not compiled by the test build.",
  [M + "lifecycle.rs", M + "state.rs", M + "endpoints.rs"],
  [("initial state", M + "lifecycle.rs TryFrom<InitArg> for State"), ("settings upgrade", M + "state.rs upgrade"), ("validation", M + "state.rs validate_config")],
  "rules_tables", RECT,
  "The constructor, the validation, and the upgrade (with each optional setting alone, with none, and with all) are extracted as tables of path condition, result and every changed field of the state. " + RECHOW, (STUBS, MODELS))

P("C06", "Upgrades lose nothing: the books are rebuilt from the event log",
  "Every change to the books (deposits, withdrawals, transactions, balances, tokens, settings) is made by applying an event that is recorded in stable memory in the same step, and nothing else changes them. "
  "After an upgrade the state is the installation argument followed by every recorded event in order, then the upgrade's own settings, recorded too; the scan position is recorded before each upgrade.",
  ["histories", "crash_points"], "every history of messages and any number of upgrades at any point",
  "The existing tests never replay a log of the real program; whether some path changes the books without recording it cannot be settled by sampling paths.",
  [M + "state/audit.rs", M + "storage.rs", M + "lifecycle.rs", M + "main.rs", M + "state.rs"],
  [("event application and replay", M + "state/audit.rs"), ("stable event log", M + "storage.rs"), ("upgrade hooks", M + "main.rs, lifecycle.rs")],
  "rules_tables", "effect analysis (who writes which state field, by call-graph reachability) and decision tables extracted from rustc MIR",
  "Every mutable access to a field of the state structures is collected from MIR; the functions containing one must be unreachable from all endpoints, timers and destructors except through the function applying recorded events. "
  "Recording, application of each event kind, replay and the install/upgrade hooks are compared with recorded tables. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C24", "Background work is started after every installation and upgrade",
  "After an installation and after every upgrade, log scraping starts at once and every 10 minutes, sending of withdrawals and reimbursements every minute, and the key and fee estimate are fetched; an installation also announces the native ledger. "
  "Installing with upgrade settings, or upgrading with installation settings, is refused.",
  ["configurations", "histories"], "every installation or upgrade argument",
  "Timers and install hooks need the canister runtime.",
  [M + "main.rs", M + "lib.rs"], [("timers", M + "main.rs setup_timers"), ("hooks", M + "main.rs init / post_upgrade")],
  "rules_tables", RECT,
  "The hooks and the timer setup are extracted with every timer armed, its delay and the functions its closure starts. " + RECHOW, (STUBS, MODELS))

P("C27", "Withdrawal status reports tell what happened to exactly the withdrawals asked",
  "Asked by ledger block index, the status reported is that of that withdrawal: pending, transaction created, sent, finalized (success with its hash and fee paid, failure awaiting reimbursement, or reimbursed with amount and block), or not found. "
  "A search by withdrawal id, recipient or sender account returns every matching withdrawal and no other, each with its own amount, recipient, sender, token, fee bound and status.",
  ["inputs", "histories"], "every state of the books and every search parameter",
  "Status is derived from five collections whose contents depend on the whole history; users and front ends act on it, and the code is not compiled by the test build.",
  [M + "state/transactions/mod.rs", M + "main.rs", M + "endpoints.rs"],
  [("status of one withdrawal", M + "state/transactions/mod.rs transaction_status, processed_transaction_status"), ("search", M + "state/transactions/mod.rs withdrawal_status, match_parameter"), ("queries", M + "main.rs withdrawal_status, retrieve_witdrawal_status")],
  "rules_tables", RECT,
  "The status functions, the matching predicate, the two queries and the conversion of the search parameter are extracted as tables of path condition and result. " + RECHOW, (STUBS, MODELS))

P("C15", "Restricted calls are refused to everyone but their rightful callers",
  "A token is added only when the call comes from the configured ledger suite manager, deposits are checked on demand only for the configured exchange canister, and nobody anonymous withdraws; every other caller is refused with nothing changed. "
  "A request to scan again is honoured only for a block newer than the last one observed, and not within one minute of the last observation.",
  ["inputs", "histories"], "every caller, argument and state of the configuration",
  "Access rules must hold for every principal and every configuration, and the endpoints are not compiled by the test build.",
  [M + "main.rs", M + "deposit.rs"],
  [("token registration", M + "main.rs add_erc20_token"), ("scraping on demand", M + "main.rs check_new_deposits, request_scraping_logs; deposit.rs validate_log_scraping_request"), ("anonymous callers", M + "main.rs validate_caller_not_anonymous")],
  "rules_tables", RECT,
  "Each restricted endpoint is enumerated as a table of conditions on the caller and the state, with everything that follows (calls, recorded events, timers, or refusal). " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C19", "Only valid tokens of this chain are registered, once each, and found again",
  "A token is accepted only if it names the chain this minter serves, a well-formed address and a valid symbol, and is stored with exactly the given address, symbol and ledger. "
  "No two registered tokens share an address or a symbol, a ledger is looked up to its own token and no other, and the listing holds every registered token exactly once.",
  ["inputs", "histories"], "every token argument and every history of registrations",
  "Uniqueness must hold over every history of registrations, and this code is not compiled by the test build.",
  [M + "erc20.rs", M + "state.rs"],
  [("conversion", M + "erc20.rs TryFrom<AddErc20Token>, ERC20TokenSymbol::from_str"), ("registration", M + "state.rs record_add_erc20_token"), ("lookup", M + "state.rs find_erc20_token_by_ledger_id, supported_erc20_tokens")],
  "rules_tables", RECT,
  "The conversion, the registration and the lookups are extracted as tables of path condition, result and state change. " + RECHOW, (STUBS, MODELS))

P("C28", "The event log query returns exactly the recorded events, page by page",
  "A page starts at the requested position and holds the next recorded events in order, at most the requested number and at most 100, along with the total recorded; none is skipped, repeated or altered. "
  "Each event is shown with its own kind, time and every field carrying the recorded value.",
  ["inputs", "histories"], "every event log and every page requested",
  "Thirty-nine shapes of events with over a hundred fields are mapped by hand; auditors rely on them, and this code is not compiled by the test build.",
  [M + "main.rs", M + "storage.rs"], [("paging", M + "main.rs get_events; storage.rs with_event_iter"), ("mapping", M + "main.rs get_events map_event")],
  "rules_tables", RECT,
  "The query and the mapping of every kind of event, with optional fields present and absent, are extracted as tables giving the origin of each field. " + RECHOW, (STUBS, MODELS))

P("C32", "Ledger memos name the deposit or withdrawal they belong to",
  "The memo of a mint carries the depositing address, transaction hash and log index of that deposit; that of a reimbursement its withdrawal, and the transaction hash if one was sent. "
  "Every kind of memo, of mints and of burns, has its own fixed encoding, which never changes, so that old and new memos can be read alike.",
  ["inputs"], "every deposit, withdrawal and reimbursement",
  "The ledger history is the only public trace between the two chains; memo fields are mapped by hand and not compiled by the test build.",
  [M + "memo.rs"], [("memo conversions", M + "memo.rs From impls for Memo and MintMemo")],
  "rules_tables", RECT,
  "Each conversion into a memo is extracted as a table giving, per kind of source, the kind of memo and the origin of each of its fields. " + RECHOW, (STUBS, MODELS))

P("C05", "One deposit that cannot be minted neither blocks nor delays the others",
  "Recorded deposits are minted at once; a refused or unanswered mint is retried in 30 seconds with the others still attempted, and a deposit that cannot be minted (not covering the fee, or a trap after the ledger was asked) is set aside. "
  "A failure to mint the fee never repeats the user's mint; invalid deposits are set aside with their reason; the chain is asked at most three times before scraping waits for the next round.",
  ["histories", "fault_sequences"], "every queue of deposits and every sequence of ledger and provider answers",
  "One malformed deposit by anyone could otherwise stop all minting; loops over asynchronous calls are not reachable from the unit tests.",
  [M + "deposit.rs"], [("minting task", M + "deposit.rs mint"), ("registration", M + "deposit.rs register_deposit_events"), ("scraping task", M + "deposit.rs scrape_logs")],
  "rules_tables", RECT,
  "The tasks are enumerated as tables: for one generic deposit under every ledger answer, the recorded events, timers, guards held and fired, and whether the loop goes on. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C09", "Deposits are taken only from blocks deep enough not to be reorganised",
  "Scanning ends at the block the providers report under the configured finality tag, less 20 blocks on BSC and 12 on Arbitrum, Avalanche, Base, Fantom and Optimism; if that would be below zero nothing is scanned. "
  "When no block is reported, the last one observed stands.",
  ["inputs", "configurations"], "every chain, finality setting and provider answer",
  "A reorganised deposit would be minted against nothing; the code is not compiled by the test build.",
  [M + "deposit.rs", M + "state.rs"], [("last block to scan", M + "deposit.rs update_last_observed_block_number"), ("finality tag", M + "state.rs block_height")],
  "rules_tables", RECT,
  "The function deciding the last block is extracted as a table per chain: the block asked for, the block returned and the state change. " + RECHOW, (STUBS, MODELS))

P("C29", "Information queries report the state the minter actually runs with",
  "The minter's information, addresses and estimated transaction price are those of its current state, each field its own, absent exactly when the state has none; balances and tokens list every registered token. "
  "The price quoted for a ledger uses the gas limit a withdrawal through that ledger would use, and an unknown ledger is refused; the trusted origins are the published ones.",
  ["inputs", "histories"], "every state and every argument",
  "Users and other canisters decide amounts and approvals from these answers; fields are mapped by hand and not compiled by the test build.",
  [M + "main.rs", M + "endpoints.rs", M + "rpc_declrations.rs"],
  [("queries", M + "main.rs get_minter_info, eip_1559_transaction_price, smart_contract_address, minter_address, icrc28_trusted_origins"), ("conversions", M + "endpoints.rs From impls")],
  "rules_tables", RECT,
  "Each query and each conversion it uses is extracted as a table of path condition and answer, giving the origin of every field. " + RECHOW, (STUBS, MODELS))

P("C31", "Withdrawal refusals tell the caller what the ledger actually said",
  "A failed burn or fee transfer is reported with its own kind: too little funds, too little allowance, too small an amount, or temporarily unavailable, with the balance, allowance, minimum, attempted amount, token symbol and ledger of that very failure. "
  "An accepted withdrawal is reported with the ledger block of its own burn, and for tokens also that of the fee burn.",
  ["inputs"], "every failure the ledger client can return and every accepted request",
  "Callers decide from these values whether money moved and how much to approve; values of the same type are mapped by hand and not compiled by the test build.",
  [M + "endpoints.rs"], [("errors", M + "endpoints.rs From impls for WithdrawalError, LedgerError, FeeError"), ("receipts", M + "endpoints.rs From impls for RetrieveNativeRequest, RetrieveErc20Request")],
  "rules_tables", RECT,
  "Each conversion is extracted as a table giving, per kind of failure, the reported kind and the origin of each field. " + RECHOW, (STUBS, MODELS))

P("C33", "Values received from the chain are decoded to what they denote",
  "Hashes and data are read only from well-formed 0x hexadecimal of the right length, block positions only from a 0x number or a known tag, and the transaction status 1 means success, 0 failure, anything else an error. "
  "Costs are price times gas, exact or refused on overflow, and conversions between units keep the value.",
  ["inputs"], "every string and number a provider can return",
  "Inputs come from outside; a status read the wrong way round would reimburse successful withdrawals. This code is not compiled by the test build.",
  [M + "rpc_declrations.rs", M + "numeric/mod.rs"],
  [("parsers", M + "rpc_declrations.rs FromStr and TryFrom impls"), ("costs", M + "numeric/mod.rs transaction_cost, into_wei_per_gas; rpc_declrations.rs effective_transaction_fee")],
  "rules_tables", RECT,
  "Each parser and conversion is extracted as a table of path condition and result. " + RECHOW, (STUBS, MODELS))

P("C34", "The native ledger is announced to the ledger suite manager as it is",
  "The announcement goes to the configured manager and carries the native symbol, ledger and index this minter runs with, the chain it serves, no archives, and the hash of the bundled ledger and index modules, each in its own field. "
  "A refusal by the manager does not stop the minter.",
  ["configurations", "fault_sequences"], "every configuration and every answer of the manager",
  "A wrong announcement makes the manager top up or upgrade the wrong canisters; this code is not compiled by the test build.",
  [M + "lsm_client.rs"], [("announcement", M + "lsm_client.rs lazy_add_native_ls_to_lsm_canister, call_lsm_to_add_twin_native, new_native_ls")],
  "rules_tables", RECT,
  "The task is enumerated as a table per chain and answer: the call made, to whom, with which fields. The wire form of the announcement and of the manager's answer is derived from the type-checked definitions and compared with the manager's interface. The bundled modules are not in the repository; stand-ins that differ by file name take their place. " + RECHOW, (STUBS, MODELS))

P("C35", "Signatures are paid, requested and checked exactly as intended",
  "A signature request goes to the management canister with the given key, path and hash on secp256k1 and 27 billion cycles, and only if the balance covers them; otherwise it fails at once as out of cycles. "
  "The signature returned is the reply's own 64 bytes, and each rejection keeps its kind (transient, canister error, rejected, internal) and its message.",
  ["inputs", "fault_sequences"], "every request, balance and answer of the management canister",
  "Whether a failed signature is tried again depends on its classification; the code needs the canister runtime and is not compiled by the test build.",
  [M + "management.rs"], [("signing", M + "management.rs sign_with_ecdsa, call"), ("rejections", M + "management.rs Reason::from_reject")],
  "rules_tables", RECT,
  "Request, payment, balance test and every answer are enumerated as a table. " + RECHOW, (STUBS, MODELS, ATOMIC))

P("C36", "Clients of the published interface can call every method and read every reply",
  "Every method of the published interface description is offered under its name and kind, reads every argument that callers may send by it, and replies only with what they can read. "
  "Nothing published is dropped, renamed or given another type, and no method whose effects must last is offered as a query.",
  ["inputs", "configurations"], "every value that a client of the published interface may send or receive",
  "The interface file is produced by hand at release time; no test compares it with the program, and wallets and the ledger suite manager are built against it.",
  [M + "main.rs", M + "endpoints.rs", M + "lifecycle.rs", M + "evm_config.rs"], [("endpoints", M + "main.rs, exported methods"), ("wire types", M + "endpoints.rs, lifecycle.rs"), ("published interface", "evm_minter.did")],
  "rules_iface", "interface subtyping: wire types derived from the type-checked definitions and derive attributes, against the published Candid description",
  "For every exported canister method the decoded argument types and the replied types are read from the type-checked program; their wire form follows from the definitions and the serde attributes, "
  "once as candid's derive writes it and once as serde's derive reads it. Arguments: published type is a subtype of the read one, with no field ignored; replies: the written type is a subtype of the published one. Additions that old clients do not notice are allowed. "
  "A hand-written wire implementation gives no verdict for that type.", (STUBS,))

NOT_APPLICABLE = []


def N(pid, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism], reason=reason))


N("C40", "Every accepted withdrawal ends: finalized, or reimbursed",
  "A burned amount does not stay pending for ever: after finitely many rounds its transaction is finalized, or the amount is credited back.",
  ["schedules", "fault_sequences"], "every fair sequence of provider, ledger and signing answers",
  "No test can wait for ever.", [M + "withdraw.rs", M + "main.rs"], [("withdrawal task and timers", M + "withdraw.rs, main.rs setup_timers")],
  "Liveness under fairness of the chain, the providers and the timer service: it depends on fees being high enough to be mined and on outside answers, which no property of the source bounds. "
  "Its safety clauses (the timers run, every round treats every request, failures are queued for reimbursement, retries keep the nonce) are claimed under C08, C11, C13, C16 and C24.")
N("C41", "The minter's account on chain always covers the circulating twin tokens",
  "For the native token and every ERC-20 token, the balance held on the chain is at least the supply of the twin ledger less what is in flight.",
  ["histories", "fault_sequences"], "every history of both chains",
  "It compares two outside systems.", [M + "state.rs"], [("balance bookkeeping", M + "state.rs NativeBalance, Erc20Balances")],
  "It relates the contents of an EVM chain and of other canisters' ledgers, neither of which is in this source. The clauses that are in it (amounts minted equal amounts deposited less fee, bookkeeping of balances, "
  "amounts sent equal amounts burned less fees) are claimed under C02, C08, C10, C11 and C12.")
N("C42", "A transaction priced by the minter is high enough to be mined",
  "The fee estimated from recent blocks, with its doubling margin and the minimum tip, suffices for inclusion while the transaction waits.",
  ["fault_sequences"], "every evolution of the fee market",
  "Depends on the future fee market.", [M + "tx.rs"], [("fee estimate", M + "tx.rs estimate_transaction_fee")],
  "Sufficiency of a price is a fact about the future of an outside market. How the estimate is computed and how replacements raise it is claimed under C13.")
N("C43", "The instruction and cycle limits of the platform are never exceeded",
  "No message handler runs out of instructions or cycles, whatever the number of deposits, withdrawals, registered tokens and recorded events.",
  ["inputs", "histories"], "every size of the state and of the event log",
  "Sizes in tests are small.", [M + "state/audit.rs", M + "deposit.rs", M + "withdraw.rs"], [("replay at upgrade", M + "state/audit.rs replay_events"), ("scraping", M + "deposit.rs scrape_logs")],
  "Instruction counts and cycle prices are quantities of the platform that the source does not bound (replay, for one, is linear in the whole history). The static parts (batch sizes, page sizes, block ranges, "
  "range halving, cycles attached to calls) are claimed under C04, C08, C14, C28 and C35.")
