//! Stand-in for dfinity/ic's `ic-ethereum-types` (declared but unused by evm_minter).
