"""Transactions, encodings, configuration, status reporting: recorded tables."""
from golden import *
from rules_state import EV, WT, ev
from rules_flow import flow, RPCS, LC

SER = "SignedEip1559TransactionRequest::"
TXR = "tx::Eip1559TransactionRequest::"



def rlp(t):
    return ("<evm_minter::%s as rlp::traits::Encodable>::rlp_append" % t, {})


J = dict(valpost=joined)
def providers(x):
    """what the client is configured with, apart from its logger"""
    if isinstance(x, tuple):
        if x[:1] == ("pretty",):
            return ("any",)
        return tuple(map(providers, x))
    return x


FM = dict(fmt=True, msgs=True, valpost=providers, opaque="^$")
MR = "<evm_rpc_types::result::MultiRpcResult<"
RED = dict(opaque=r"ReducedResult::<\w+>::(?!map_reduce)\w+$")
CA = "<evm_minter::checked_amount::CheckedAmountOf<Unit> as "

NEWSTATE = r".*lifecycle\b.*InitArg> for evm_minter::state::State>::try_from"

TOKEN = "ERC20Token as core::convert::TryFrom<evm_minter::endpoints::AddErc20Token>>::try_from"

GOLD = {
    "C17": [(CA + "serde::ser::Serialize>::serialize", {}), (CA + "serde::de::Deserialize<'de>>::deserialize", {}),
            (CA + "rlp::traits::Encodable>::rlp_append", {}), ("tx::encode_u256", {})],
    "C13": [("transactions::create_transaction", J), ("WithdrawalTransactions::create_resubmit_transactions", dict(opaque=r"::resubmit$")),
            ("Resubmittable::<evm_minter::tx::SignedEip1559TransactionRequest>::resubmit", {}),
            ("TransactionPrice::resubmit_transaction_price", {}),
            ("GasFeeEstimate::to_price", {}), ("TransactionPrice::max_transaction_fee", {}),
            ("tx::estimate_transaction_fee", {}), ("withdraw::estimate_gas_limit", {}),
            flow("lazy_refresh_gas_fee_estimate", *RPCS, "tx::estimate_transaction_fee"),
            ],
    "C18": [(TXR + "hash", J), (CA + "rlp::traits::Encodable>::rlp_append", {}), (SER + "new", J),
            ("<evm_minter::tx::SignedEip1559TransactionRequest as minicbor::decode::Decode<'b, C>>::decode", J), (SER + "raw_transaction_hex", dict(fmt=True, msgs=True, valpost=joined)), (SER + "hash", {}),
            rlp("tx::InnerSignedTransactionRequest"), rlp("tx::Eip1559TransactionRequest"), rlp("tx::Eip1559Signature"),
            rlp("tx::AccessList"), rlp("tx::AccessListItem"),
            flow(TXR + "sign", TXR + "hash", "lazy_call_ecdsa_public_key", SER + "new"),
            ("TransactionCallData::encode", J), ("TransactionCallData::decode", {}),
            ("address::ecdsa_public_key_to_address", {}), ("State::minter_address", {}), flow("state::minter_address"), flow("state::lazy_call_ecdsa_public_key"),
            ],
    "C12": [(SER + "try_finalize", {}),
            ("TransactionReceipt::effective_transaction_fee", {})],
    "C14": [("RpcClient::from_state_all_providers", FM), ("RpcClient::from_state_one_provider_public_node", FM), ("RpcClient::from_state_one_provider_ankr", FM),
            ] + [flow("RpcClient::" + x, r"EvmRpcClient::<\w+>::eth_\w+", opaque=r"^$") for x in ("get_logs", "get_block_by_number", "get_transaction_receipt", "fee_history", "get_finalized_transaction_count",
                                                   "get_latest_transaction_count", "send_raw_transaction")] + [
            (MR + "evm_rpc_types::response::Block> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "alloc::vec::Vec<evm_rpc_types::response::LogEntry>> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "core::option::Option<evm_rpc_types::response::TransactionReceipt>> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "core::option::Option<evm_rpc_types::response::FeeHistory>> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "evm_rpc_types::response::SendRawTransactionStatus> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "evm_rpc_types::Nat256> as evm_minter::rpc_client::Reduce>::reduce", RED),
            (MR + "candid::types::number::Nat> as evm_minter::rpc_client::Reduce>::reduce", RED),
            ("MultiCallError::<T>::has_http_outcall_error_matching", {}),
            ("MultiCallError::<T>::at_least_one_ok", {}), ("MultiCallError::<T>::at_least_two_ok", {}),
            ("ReducedResult::<T>::map_reduce", {}), ("ReducedResult::<T>::from_multi_result", {}), ("ReducedResult::<T>::reduce_with_equality", {}),
            ("ReducedResult::<T>::reduce_with_strict_majority_by_key", {}), ("ReducedResult::<T>::reduce_with_only_one_key", {}),
            ("ReducedResult::<T>::reduce_with_min_by_key", {}), ("rpc_client::is_response_too_large", {}), ("rpc_client::into_evm_block_tag", {}),
            ("rpc_client::into_evm_topic", {}),
            ],
    "C16": [flow("guard::retrieve_withdraw_guard"), flow("TimerGuard::new"), flow("<evm_minter::guard::Guard<PR> as core::ops::drop::Drop>::drop"),
            flow("<evm_minter::guard::TimerGuard as core::ops::drop::Drop>::drop"),
            ("WithdrawalTransactions::withdrawal_requests_len", {})],
    "C23": [("TryFrom<evm_minter::lifecycle::InitArg> for evm_minter::state::State>::try_from", dict(opaque=r"State::validate_config$")), ("State::validate_config", {})] + [
            ("State::upgrade[%s]" % x, dict(enum="evm_minter::lifecycle::UpgradeArg", options=True, opaque=r"State::validate_config$", failmem=False)) for x in (
                "none next_transaction_nonce native_minimum_withdrawal_amount helper_contract_address block_height last_scraped_block_number evm_rpc_id native_ledger_transfer_fee "
                "min_max_priority_fee_per_gas deposit_native_fee withdrawal_native_fee all").split()],
    "C27": [(WT + "withdrawal_status", dict(opaque=r"match_parameter$|processed_transaction_status$")), (WT + "transaction_status", {}), (WT + "processed_transaction_status", {}), ("WithdrawalRequest::match_parameter", {}),
            ("main_bin::withdrawal_status", dict(opaque=r"WithdrawalTransactions::withdrawal_status$|WithdrawalSearchParameter>::try_from$")), flow("main_bin::retrieve_witdrawal_status", WT + "transaction_status"),
            ("TryFrom<evm_minter::endpoints::WithdrawalSearchParameter> for evm_minter::state::transactions::WithdrawalSearchParameter>::try_from", {})],
    "C32": [("From<%s> for icrc_ledger_types::icrc1::transfer::Memo>::from" % x, dict(opaque="^$")) for x in (
                "evm_minter::memo::MintMemo", "evm_minter::memo::BurnMemo", "&evm_minter::deposit_logs::ReceivedDepositEvent", "evm_minter::state::transactions::ReimbursementRequest")] + [
            ("MintMemo as core::convert::From<evm_minter::state::transactions::ReimbursementRequest>>::from", {})],
    "C15": [flow("main_bin::add_erc20_token", TOKEN), flow("main_bin::check_new_deposits", "deposit::scrape_logs"), flow("main_bin::request_scraping_logs", "deposit::scrape_logs"),
            flow("main_bin::get_canister_status"), ("deposit::validate_log_scraping_request", {}), ("main_bin::validate_caller_not_anonymous", {})],
    "C05": [flow("deposit::mint"), flow("deposit::register_deposit_events"), flow("deposit::scrape_logs", "deposit::scrape_until_block", "deposit::update_last_observed_block_number")],
    "C09": [flow("deposit::update_last_observed_block_number", *RPCS), ("State::block_height", {}), ("State::max_block_spread_for_logs_scraping", {})],
    "C19": [(TOKEN, {}), ("<evm_minter::erc20::ERC20TokenSymbol as core::str::traits::FromStr>::from_str", {}), ("State::record_add_erc20_token", {}), ("State::find_erc20_token_by_ledger_id", {}),
            ("State::supported_erc20_tokens", {})],
    "C24": [flow("main_bin::init", "main_bin::setup_timers", NEWSTATE), flow("main_bin::post_upgrade", "lifecycle::post_upgrade", "main_bin::setup_timers"),
            flow("main_bin::setup_timers", "deposit::scrape_logs")],
    "C06": [flow("main_bin::init", "main_bin::setup_timers", NEWSTATE), flow("main_bin::pre_upgrade"), flow("main_bin::post_upgrade", "lifecycle::post_upgrade", "main_bin::setup_timers"),
            flow("lifecycle::post_upgrade", "audit::replay_events"), flow("audit::replay_events", NEWSTATE), flow("audit::process_event"), flow("storage::record_event"),
            ("storage::EVENTS::__rust_std_internal_init_fn", {}), ("storage::RPC_API_KEYS::__rust_std_internal_init_fn", {}), ("storage::MEMORY_MANAGER::__rust_std_internal_init_fn", {}),
            ("storage::total_event_count", {}), ("storage::set_rpc_api_key", {}), ("storage::get_rpc_api_key", {})] + [
            ev(x) for x in "Init InvalidDeposit MintedNative MintedErc20 SyncedToBlock SkippedBlock AddedErc20Token QuarantinedDeposit".split()] + [
            ev("Upgrade", opaque=r"State::upgrade$")],
    "C28": [("main_bin::get_events", dict(opaque=r"get_events::map_event$")), ("get_events::map_event", dict(fmt=True, opaque=r"raw_transaction_hex$")), ("storage::with_event_iter", {})],
    "C29": [("main_bin::get_minter_info", {}), ("main_bin::eip_1559_transaction_price", dict(opaque=r"State::find_erc20_token_by_ledger_id$")), ("main_bin::smart_contract_address", {}),
            flow("main_bin::minter_address"), ("main_bin::icrc28_trusted_origins", dict(fmt=True, msgs=True)),
            ("evm_minter::endpoints::Erc20Token as core::convert::From<evm_minter::erc20::ERC20Token>>::from", {}),
            ("evm_minter::endpoints::Eip1559TransactionPrice as core::convert::From<evm_minter::tx::TransactionPrice>>::from", {}),
            ("evm_minter::endpoints::Transaction as core::convert::From<&evm_minter::tx::SignedEip1559TransactionRequest>>::from", {}),
            ("evm_minter::endpoints::Transaction as core::convert::From<&evm_minter::rpc_declrations::TransactionReceipt>>::from", {}),
            ("evm_minter::rpc_declrations::BlockTag as core::convert::From<evm_minter::endpoints::CandidBlockTag>>::from", {}),
            ("From<evm_minter::rpc_declrations::BlockTag> for evm_minter::endpoints::CandidBlockTag>::from", {})],
    "C31": [("evm_minter::endpoints::WithdrawalError as core::convert::From<evm_minter::ledger_client::LedgerBurnError>>::from", {}),
            ("evm_minter::endpoints::WithdrawalError as core::convert::From<evm_minter::ledger_client::FeeTransferError>>::from", {}),
            ("evm_minter::endpoints::LedgerError as core::convert::From<evm_minter::ledger_client::LedgerBurnError>>::from", {}),
            ("evm_minter::endpoints::FeeError as core::convert::From<evm_minter::ledger_client::FeeTransferError>>::from", {}),
            ("evm_minter::endpoints::RetrieveNativeRequest as core::convert::From<evm_minter::state::transactions::NativeWithdrawalRequest>>::from", {}),
            ("evm_minter::endpoints::RetrieveErc20Request as core::convert::From<evm_minter::state::transactions::Erc20WithdrawalRequest>>::from", {})],
    "C33": [("<evm_minter::rpc_declrations::Hash as core::str::traits::FromStr>::from_str", {}), ("<evm_minter::rpc_declrations::FixedSizeData as core::str::traits::FromStr>::from_str", {}),
            ("<evm_minter::rpc_declrations::Data as core::str::traits::FromStr>::from_str", {}), ("<evm_minter::rpc_declrations::BlockSpec as core::str::traits::FromStr>::from_str", {}),
            ("TransactionStatus as core::convert::TryFrom<u8>>::try_from", {}),
            ("rpc_declrations::into_nat", {}),
            ("transaction_cost", {}), ("into_wei_per_gas", {}), ("numeric::wei_from_milli_ether", {}),
            ("TransactionReceipt::effective_transaction_fee", {})],
    "C34": [flow("lsm_client::lazy_add_native_ls_to_lsm_canister", opaque=r"WasmHash::new$"), ("LSMClient::new_native_ls", {})],
    "C35": [flow("management::sign_with_ecdsa"), ("Reason::from_reject", dict(fmt=True)), flow("management::call")],
}
