// Domain prefixes
pub const VRF_PREFIX_HASH_TO_POINT: &[u8] = b"VRF-Ephem-HashToPoint";
pub const VRF_PREFIX_HASH_TO_SCALAR: &[u8] = b"VRF-Ephem-HashToScalar";
pub const VRF_PREFIX_NONCE: &[u8] = b"VRF-Ephem-Nonce";
pub const VRF_PREFIX_CHALLENGE: &[u8] = b"VRF-Ephem-Challenge";
