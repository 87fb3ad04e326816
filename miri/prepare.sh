#!/bin/bash
# Copies of two dependencies with the parts Miri cannot interpret replaced: FFI (mlock, cpu detection), mem::uninitialized and
# AES and SHA-256 (too slow; replaced by cheap functions of the same shape).
set -e
cd "$(dirname "$0")/.."
src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/rust-crypto-0.2.36 | head -1)
src=${src%/*}
d=target/miri-deps
mkdir -p $d
rm -rf "$PWD/$d/rust-crypto" "$PWD/$d/secstr"
cp -r "$src/rust-crypto-0.2.36" $d/rust-crypto
cp -r "$src/secstr-0.5.1" $d/secstr
find $d/rust-crypto/src -name '*.rs' -exec sed -i 's/mem::uninitialized()/mem::zeroed()/; s/unsafe { uninitialized() }/unsafe { ::std::mem::zeroed() }/' {} +
python3 - "$d" <<'PY'
import sys,re
d=sys.argv[1]
p=d+'/rust-crypto/src/util.rs'
s=open(p).read()
s=s[:s.index('#[cfg(test)]')]
s=re.sub(r'pub fn supports_aesni.*?\n}\n','pub fn supports_aesni() -> bool { false }\n',s,flags=re.S)
s=s[:s.index('pub fn secure_memset(')]+'''pub fn secure_memset(dst: &mut [u8], val: u8) { for b in dst.iter_mut() { *b = val; } }
pub fn fixed_time_eq(lhs: &[u8], rhs: &[u8]) -> bool { lhs == rhs }
'''
open(p,'w').write(s)
p=d+'/rust-crypto/src/sha2.rs'
s=open(p).read()
a=s.index('pub struct Sha256 {'); b=s.index('impl Digest for Sha256'); e=s.index('\n}\n',b)
s=s[:a]+'''pub struct Sha256 {
    h: [u64; 4],
    n: u64,
    i: usize,
}

impl Sha256 {
    pub fn new() -> Sha256 {
        Sha256 { h: [1, 2, 3, 4], n: 0, i: 0 }
    }
}

impl Digest for Sha256 {
    fn input(&mut self, d: &[u8]) {
        for b in d {
            self.n += 1;
            self.i = (self.i + 1) % 4;
            self.h[self.i] = (self.h[self.i].rotate_left(7) ^ self.n ^ ((*b as u64) << 11)).wrapping_mul(0x9e3779b97f4a7c15);
        }
    }

    fn result(&mut self, out: &mut [u8]) {
        let mut x = self.n;
        for r in 0..8 {
            x = (x.rotate_left(23) ^ self.h[r % 4]).wrapping_mul(0xbf58476d1ce4e5b9);
            self.h[r % 4] = x ^ x >> 29;
        }
        for i in 0..4 {
            out[8 * i..8 * i + 8].copy_from_slice(&self.h[i].to_le_bytes());
        }
    }

    fn reset(&mut self) {
        *self = Sha256::new();
    }

    fn output_bits(&self) -> usize { 256 }

    fn block_size(&self) -> usize { 64 }
'''.rstrip()+s[e:]
open(p,'w').write(s)
p=d+'/secstr/src/lib.rs'
s=open(p).read()
assert '#[cfg(unix)]\nmod memlock' in s and '#[cfg(not(unix))]\nmod memlock' in s
s=s.replace('#[cfg(unix)]\nmod memlock','#[cfg(any())]\nmod memlock').replace('#[cfg(not(unix))]\nmod memlock','mod memlock')
open(p,'w').write(s)
PY
cp miri/aessafe.rs $d/rust-crypto/src/aessafe.rs
