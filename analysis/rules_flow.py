"""Tasks and endpoints: which ledger calls, recorded events and timers follow under which conditions."""
from golden import *

WT = "WithdrawalTransactions::"
LC = "LedgerClient::"
BATCHES = tuple("withdraw::" + x for x in (
    "resubmit_transactions_batch", "create_transactions_batch", "sign_transactions_batch", "send_transactions_batch",
    "finalize_transactions_batch", "latest_transaction_count", "finalized_transaction_count"))
FEE = "lazy_refresh_gas_fee_estimate"
RPCS = (r"RpcClient::from_state\w*", "state::minter_address")


def flow(name, *cut, **kw):
    return (name, dict(flow=True, cut=cut, **kw))


def but(xs, name):
    return tuple(x for x in xs if not x.endswith(name))


GOLD = {
    "C08": [flow("withdraw_native_token", LC + "burn_from", LC + "trasnfer_withdrawal_fee", LC + "refund_withdrawal_fee"),
            flow("withdraw_erc20", FEE, LC + "burn_from", LC + "trasnfer_withdrawal_fee", LC + "refund_withdrawal_fee"),
            flow(LC + "burn_from"), flow(LC + "trasnfer_withdrawal_fee"), flow(LC + "refund_withdrawal_fee")],
    "C10": [flow("process_reimbursement")],
    "C11": [flow("process_retrieve_tokens_requests", *BATCHES, FEE, WT + "has_pending_requests"),
            flow("resubmit_transactions_batch", WT + "create_resubmit_transactions"),
            flow("create_transactions_batch", WT + "withdrawal_requests_batch", WT + "reschedule_withdrawal_request", "transactions::create_transaction"),
            flow("sign_transactions_batch", WT + "transactions_to_sign_batch", "Eip1559TransactionRequest::sign"),
            flow("send_transactions_batch", WT + "transactions_to_send_batch", *RPCS, "SignedEip1559TransactionRequest::raw_transaction_hex"),
            flow("latest_transaction_count", *RPCS),
            ],
    "C12": [flow("finalize_transactions_batch", WT + "sent_transactions_to_finalize", *RPCS), flow("finalized_transaction_count", *RPCS)],
}
