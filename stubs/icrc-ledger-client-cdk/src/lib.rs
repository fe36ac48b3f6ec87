//! Stand-in for dfinity/ic's `icrc-ledger-client-cdk` (only what evm_minter uses).
//! The calls are never executed by the static checks.
use candid::Principal;
use icrc_ledger_types::icrc1::transfer::{BlockIndex, TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};

pub struct CdkRuntime;
pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}
fn code(e: (ic_cdk::api::call::RejectionCode, String)) -> (i32, String) {
    (e.0 as i32, e.1)
}
impl<R> ICRC1Client<R> {
    pub async fn transfer(
        &self,
        args: TransferArg,
    ) -> Result<Result<BlockIndex, TransferError>, (i32, String)> {
        let r: Result<(Result<BlockIndex, TransferError>,), _> =
            ic_cdk::call(self.ledger_canister_id, "icrc1_transfer", (args,)).await;
        r.map(|(x,)| x).map_err(code)
    }
    pub async fn transfer_from(
        &self,
        args: TransferFromArgs,
    ) -> Result<Result<BlockIndex, TransferFromError>, (i32, String)> {
        let r: Result<(Result<BlockIndex, TransferFromError>,), _> =
            ic_cdk::call(self.ledger_canister_id, "icrc2_transfer_from", (args,)).await;
        r.map(|(x,)| x).map_err(code)
    }
}
