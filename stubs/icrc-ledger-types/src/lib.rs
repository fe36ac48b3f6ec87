//! Stand-in for dfinity/ic's `icrc-ledger-types` (only what evm_minter uses).
pub mod icrc1 {
    pub mod account {
        use candid::{CandidType, Principal};
        use serde::{Deserialize, Serialize};
        use std::fmt;
        pub type Subaccount = [u8; 32];
        pub const DEFAULT_SUBACCOUNT: &Subaccount = &[0; 32];
        #[derive(Clone, Copy, Debug, CandidType, Deserialize, Serialize)]
        pub struct Account {
            pub owner: Principal,
            pub subaccount: Option<Subaccount>,
        }
        impl Account {
            pub fn effective_subaccount(&self) -> &Subaccount {
                self.subaccount.as_ref().unwrap_or(DEFAULT_SUBACCOUNT)
            }
        }
        impl PartialEq for Account {
            fn eq(&self, other: &Self) -> bool {
                self.owner == other.owner
                    && self.effective_subaccount() == other.effective_subaccount()
            }
        }
        impl Eq for Account {}
        impl PartialOrd for Account {
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
        impl Ord for Account {
            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
                self.owner
                    .cmp(&other.owner)
                    .then_with(|| self.effective_subaccount().cmp(other.effective_subaccount()))
            }
        }
        impl std::hash::Hash for Account {
            fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
                self.owner.hash(state);
                self.effective_subaccount().hash(state);
            }
        }
        impl fmt::Display for Account {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}.{}", self.owner, hex::encode(self.effective_subaccount()))
            }
        }
        impl From<Principal> for Account {
            fn from(owner: Principal) -> Self {
                Self { owner, subaccount: None }
            }
        }
    }
    pub mod transfer {
        use super::account::{Account, Subaccount};
        use candid::{CandidType, Nat};
        use serde::{Deserialize, Serialize};
        use serde_bytes::ByteBuf;
        pub type NumTokens = Nat;
        pub type BlockIndex = Nat;
        #[derive(Clone, Debug, Default, Eq, PartialEq, Ord, PartialOrd, Hash, CandidType, Deserialize, Serialize)]
        #[serde(transparent)]
        pub struct Memo(pub ByteBuf);
        impl From<u64> for Memo {
            fn from(num: u64) -> Self {
                Self(ByteBuf::from(num.to_be_bytes().to_vec()))
            }
        }
        impl From<ByteBuf> for Memo {
            fn from(b: ByteBuf) -> Self {
                Self(b)
            }
        }
        impl From<Vec<u8>> for Memo {
            fn from(v: Vec<u8>) -> Self {
                Self(ByteBuf::from(v))
            }
        }
        impl From<Memo> for ByteBuf {
            fn from(memo: Memo) -> Self {
                memo.0
            }
        }
        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, CandidType, Deserialize, Serialize)]
        pub struct TransferArg {
            #[serde(default)]
            pub from_subaccount: Option<Subaccount>,
            pub to: Account,
            #[serde(default)]
            pub fee: Option<NumTokens>,
            #[serde(default)]
            pub created_at_time: Option<u64>,
            #[serde(default)]
            pub memo: Option<Memo>,
            pub amount: NumTokens,
        }
        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, CandidType, Deserialize)]
        pub enum TransferError {
            BadFee { expected_fee: NumTokens },
            BadBurn { min_burn_amount: NumTokens },
            InsufficientFunds { balance: NumTokens },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            TemporarilyUnavailable,
            Duplicate { duplicate_of: BlockIndex },
            GenericError { error_code: Nat, message: String },
        }
        impl std::fmt::Display for TransferError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
    }
}
pub mod icrc2 {
    pub mod transfer_from {
        use crate::icrc1::account::{Account, Subaccount};
        use crate::icrc1::transfer::{BlockIndex, Memo, NumTokens};
        use candid::{CandidType, Nat};
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, CandidType, Deserialize, Serialize)]
        pub struct TransferFromArgs {
            #[serde(default)]
            pub spender_subaccount: Option<Subaccount>,
            pub from: Account,
            pub to: Account,
            pub amount: NumTokens,
            #[serde(default)]
            pub fee: Option<NumTokens>,
            #[serde(default)]
            pub memo: Option<Memo>,
            #[serde(default)]
            pub created_at_time: Option<u64>,
        }
        #[derive(Clone, Debug, Eq, PartialEq, CandidType, Deserialize)]
        pub enum TransferFromError {
            BadFee { expected_fee: Nat },
            BadBurn { min_burn_amount: Nat },
            InsufficientFunds { balance: Nat },
            InsufficientAllowance { allowance: Nat },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            Duplicate { duplicate_of: BlockIndex },
            TemporarilyUnavailable,
            GenericError { error_code: Nat, message: String },
        }
    }
}
