//! Conversions between plain bytes and the library's types.
use hacspec::prelude::*;

pub fn bs(b: &[u8]) -> ByteSeq {
    ByteSeq::from_public_slice(b)
}
pub fn un<A: SeqTrait<U8>>(s: &A) -> Vec<u8> {
    (0..s.len()).map(|i| s[i].declassify()).collect()
}
