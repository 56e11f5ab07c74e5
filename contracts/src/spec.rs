//! Specification functions: the mathematical meaning the contracts refer to.

/// Bit `i` of a byte sequence, least significant bit first.
pub fn bit(bytes: &[u8], i: usize) -> bool {
    (bytes[i / 8] >> (i % 8)) & 1 == 1
}

/// Bytes needed for `n` bits.
pub fn bytes_for(n: usize) -> usize {
    n / 8 + usize::from(n % 8 != 0)
}
