//! Stand-in for dfinity/ic's `ic-management-canister-types` (only what evm_minter uses).
use candid::CandidType;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;

#[derive(Clone, Debug, Eq, PartialEq, CandidType, Deserialize, Serialize)]
pub struct BoundedVec<T>(Vec<T>);
pub type DerivationPath = BoundedVec<ByteBuf>;
impl<T> BoundedVec<T> {
    pub fn new(data: Vec<T>) -> Self {
        BoundedVec(data)
    }
    pub fn get(&self) -> &Vec<T> {
        &self.0
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, CandidType, Deserialize, Serialize)]
pub enum EcdsaCurve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}
#[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, CandidType, Deserialize, Serialize)]
pub struct EcdsaKeyId {
    pub curve: EcdsaCurve,
    pub name: String,
}
#[derive(Debug, CandidType, Deserialize)]
pub struct SignWithECDSAArgs {
    pub message_hash: [u8; 32],
    pub derivation_path: DerivationPath,
    pub key_id: EcdsaKeyId,
}
#[derive(Debug, CandidType, Deserialize)]
pub struct SignWithECDSAReply {
    #[serde(with = "serde_bytes")]
    pub signature: Vec<u8>,
}
