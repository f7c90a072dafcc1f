//! Reference implementations used as oracles. They share no code with the stand-in libraries under
//! `ws/shims` or with the code under test.

pub mod rlp;
pub mod exec;
pub mod lc;
pub mod schema;
pub mod ssz;

pub type H = [u8; 32];

const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[u8]) -> H {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for block in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(K256[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn sha2(a: &H, b: &H) -> H {
    let mut x = a.to_vec();
    x.extend_from_slice(b);
    sha256(&x)
}

fn keccak_f(a: &mut [u64; 25]) {
    // Round constants from the LFSR definition, rotation offsets from the walk definition.
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[1];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            let tmp = a[nx + 5 * ny];
            a[nx + 5 * ny] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        for j in 0..7u32 {
            if lfsr & 1 == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = if lfsr & 0x80 != 0 {
                (lfsr << 1) ^ 0x71
            } else {
                lfsr << 1
            };
        }
    }
}

pub fn keccak256(data: &[u8]) -> H {
    let mut msg = data.to_vec();
    msg.push(1);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    let mut a = [0u64; 25];
    for block in msg.chunks(136) {
        for i in 0..17 {
            a[i] ^= u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}

pub fn xor(a: &H, b: &H) -> H {
    let mut o = [0; 32];
    for i in 0..32 {
        o[i] = a[i] ^ b[i];
    }
    o
}

/// Merkle-Patricia trie over (nibble key, value) pairs, built recursively from its definition.
pub mod mpt {
    use super::{keccak256, rlp, H};

    pub fn nibbles(key: &[u8]) -> Vec<u8> {
        key.iter().flat_map(|b| [b >> 4, b & 15]).collect()
    }

    fn hp(path: &[u8], leaf: bool) -> Vec<u8> {
        let mut out = vec![];
        let flag = if leaf { 2u8 } else { 0 };
        let rest = if path.len() % 2 == 1 {
            out.push(((flag + 1) << 4) | path[0]);
            &path[1..]
        } else {
            out.push(flag << 4);
            path
        };
        for p in rest.chunks(2) {
            out.push(p[0] << 4 | p[1]);
        }
        out
    }

    /// RLP of the node for the given pairs (all sharing the path consumed so far).
    pub fn node(pairs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
        if pairs.is_empty() {
            return vec![0x80];
        }
        if pairs.len() == 1 {
            return rlp::list(&[rlp::bytes(&hp(&pairs[0].0, true)), rlp::bytes(&pairs[0].1)]);
        }
        let first = &pairs[0].0;
        let mut common = first.len();
        for (k, _) in pairs {
            let c = k.iter().zip(first).take_while(|(a, b)| a == b).count();
            common = common.min(c);
        }
        if common > 0 {
            let sub: Vec<_> = pairs
                .iter()
                .map(|(k, v)| (k[common..].to_vec(), v.clone()))
                .collect();
            return rlp::list(&[rlp::bytes(&hp(&first[..common], false)), reference(&node(&sub))]);
        }
        let mut items = vec![];
        for n in 0..16u8 {
            let sub: Vec<_> = pairs
                .iter()
                .filter(|(k, _)| k.first() == Some(&n))
                .map(|(k, v)| (k[1..].to_vec(), v.clone()))
                .collect();
            if sub.is_empty() {
                items.push(vec![0x80]);
            } else {
                items.push(reference(&node(&sub)));
            }
        }
        match pairs.iter().find(|(k, _)| k.is_empty()) {
            Some((_, v)) => items.push(rlp::bytes(v)),
            None => items.push(vec![0x80]),
        }
        rlp::list(&items)
    }

    fn reference(n: &[u8]) -> Vec<u8> {
        if n.len() < 32 {
            n.to_vec()
        } else {
            rlp::bytes(&keccak256(n))
        }
    }

    pub fn root(pairs: &[(Vec<u8>, Vec<u8>)]) -> H {
        keccak256(&node(pairs))
    }

    /// Nodes (of 32 bytes or more, plus the root) on the way to `key`, root first, each with the
    /// path consumed before it.
    pub fn path_nodes(pairs: &[(Vec<u8>, Vec<u8>)], key: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut out = vec![];
        let mut cur: Vec<_> = pairs.to_vec();
        let mut at = 0usize;
        loop {
            let enc = node(&cur);
            if out.is_empty() || enc.len() >= 32 {
                out.push((key[..at].to_vec(), enc));
            }
            if cur.len() <= 1 {
                return out;
            }
            let first = cur[0].0.clone();
            let mut common = first.len();
            for (k, _) in &cur {
                common = common.min(k.iter().zip(&first).take_while(|(a, b)| a == b).count());
            }
            if common > 0 {
                if key.len() < at + common || key[at..at + common] != first[..common] {
                    return out;
                }
                at += common;
                cur = cur
                    .iter()
                    .map(|(k, v)| (k[common..].to_vec(), v.clone()))
                    .collect();
            } else {
                let Some(&n) = key.get(at) else { return out };
                at += 1;
                cur = cur
                    .iter()
                    .filter(|(k, _)| k.first() == Some(&n))
                    .map(|(k, v)| (k[1..].to_vec(), v.clone()))
                    .collect();
                if cur.is_empty() {
                    return out;
                }
            }
        }
    }

    /// Root of a trie whose keys are the RLP of the positions (transactions, receipts, ...).
    pub fn ordered_root(items: &[Vec<u8>]) -> H {
        let pairs: Vec<_> = items
            .iter()
            .enumerate()
            .map(|(i, v)| (nibbles(&rlp::uint(i as u128)), v.clone()))
            .collect();
        root(&pairs)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hx(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hx(&sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
        assert_eq!(hx(&keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hx(&keccak256(&[0x80])), "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
        assert_eq!(hx(&keccak256(&[0xc0])), "1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347");
    }
    #[test]
    fn trie() {
        let kv = [("do", "verb"), ("dog", "puppy"), ("doge", "coin"), ("horse", "stallion")];
        let p: Vec<_> = kv.iter().map(|(k, v)| (mpt::nibbles(k.as_bytes()), v.as_bytes().to_vec())).collect();
        assert_eq!(hx(&mpt::root(&p)), "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84");
    }
}
