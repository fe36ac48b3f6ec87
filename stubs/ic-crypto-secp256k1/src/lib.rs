//! Stand-in for dfinity/ic's `ic-crypto-secp256k1` (only what evm_minter uses).
use k256::ecdsa;
use k256::elliptic_curve::sec1::ToEncodedPoint;

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum RecoveryError {
    SignatureParseError(String),
    WrongParameters(String),
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct RecoveryId(ecdsa::RecoveryId);
impl RecoveryId {
    pub const fn is_y_odd(&self) -> bool {
        self.0.is_y_odd()
    }
    pub const fn is_x_reduced(&self) -> bool {
        self.0.is_x_reduced()
    }
    pub const fn to_byte(&self) -> u8 {
        self.0.to_byte()
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PublicKey(ecdsa::VerifyingKey);
impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        ecdsa::VerifyingKey::from_sec1_bytes(bytes)
            .map(Self)
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        k256::PublicKey::from(&self.0)
            .to_encoded_point(compressed)
            .as_bytes()
            .to_vec()
    }
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        use ecdsa::signature::hazmat::PrehashVerifier;
        let sig = match ecdsa::Signature::try_from(signature) {
            Ok(s) => s.normalize_s().unwrap_or(s),
            Err(_) => return false,
        };
        self.0.verify_prehash(digest, &sig).is_ok()
    }
    pub fn try_recovery_from_digest(
        &self,
        digest: &[u8],
        signature: &[u8],
    ) -> Result<RecoveryId, RecoveryError> {
        let sig = ecdsa::Signature::from_slice(signature)
            .map_err(|e| RecoveryError::SignatureParseError(e.to_string()))?;
        ecdsa::RecoveryId::trial_recovery_from_prehash(&self.0, digest, &sig)
            .map(RecoveryId)
            .map_err(|e| RecoveryError::WrongParameters(e.to_string()))
    }
}
