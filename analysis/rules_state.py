"""Bookkeeping of withdrawals, transactions, balances and reimbursements: what each recorded event does to the state."""
from golden import *

EV = "evm_minter::state::event::EventType"
TX = "state::transactions::"


def ev(name, **kw):
    return ("apply_state_transition[%s]" % name, dict(enum=EV, **kw))


WT = "WithdrawalTransactions::"

GOLD = {
    "C11": [ev("AcceptedNativeWithdrawalRequest"), ev("AcceptedErc20WithdrawalRequest"), ev("CreatedTransaction"),
            ev("SignedTransaction"), ev("ReplacedTransaction"),
            (WT + "reschedule_withdrawal_request", {}),
            (WT + "has_pending_requests", {}), (WT + "withdrawal_requests_batch", {}), (WT + "transactions_to_sign_batch", {}), (WT + "transactions_to_send_batch", {}),
            (WT + "create_resubmit_transactions", dict(opaque=r"::resubmit$")),
            ],
    "C12": [ev("FinalizedTransaction", opaque=r"TransactionCallData::decode"), ev("AcceptedDeposit"), ev("AcceptedErc20Deposit"),
            (WT + "sent_transactions_to_finalize", {})],
    "C10": [ev("FailedErc20WithdrawalRequest"), ev("ReimbursedNativeWithdrawal"), ev("ReimbursedErc20Withdrawal"),
            ev("QuarantinedReimbursement")],
}


