// A stand-in for AES: the interpreter is too slow for the cipher, and the workloads only need a cipher that undoes itself.
use symmetriccipher::{BlockDecryptor, BlockEncryptor, BlockEncryptorX8};

fn x16(k: &[u8; 16], input: &[u8], output: &mut [u8]) {
    let a = u128::from_ne_bytes(*k);
    let mut b = [0u8; 16];
    b.copy_from_slice(&input[..16]);
    output[..16].copy_from_slice(&(u128::from_ne_bytes(b) ^ a).to_ne_bytes());
}
macro_rules! cipher {
    ($t:ident $f:ident: $($n:ident)*) => {$(
        #[derive(Clone)]
        pub struct $n([u8; 16]);
        impl $n {
            pub fn new(key: &[u8]) -> $n {
                let mut k = [0u8; 16];
                for (i, b) in key.iter().enumerate() {
                    k[i % 16] = k[i % 16].rotate_left(1) ^ *b;
                }
                $n(k)
            }
        }
        impl $t for $n {
            fn block_size(&self) -> usize { 16 }
            fn $f(&self, input: &[u8], output: &mut [u8]) {
                for (i, o) in input.chunks(16).zip(output.chunks_mut(16)) {
                    x16(&self.0, i, o)
                }
            }
        }
    )*}
}
cipher!(BlockEncryptor encrypt_block: AesSafe128Encryptor AesSafe192Encryptor AesSafe256Encryptor);
cipher!(BlockDecryptor decrypt_block: AesSafe128Decryptor AesSafe192Decryptor AesSafe256Decryptor);
cipher!(BlockEncryptorX8 encrypt_block_x8: AesSafe128EncryptorX8 AesSafe192EncryptorX8 AesSafe256EncryptorX8);
