//! Simple serialize, written from the definition: containers of fixed and variable parts, lists of
//! variable items, and merkleization.
use super::{sha2, H};

pub enum Part {
    Fixed(Vec<u8>),
    Var(Vec<u8>),
}

pub fn container(parts: &[Part]) -> Vec<u8> {
    let fixed: usize = parts
        .iter()
        .map(|p| match p {
            Part::Fixed(b) => b.len(),
            Part::Var(_) => 4,
        })
        .sum();
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for p in parts {
        match p {
            Part::Fixed(b) => head.extend_from_slice(b),
            Part::Var(b) => {
                head.extend_from_slice(&((fixed + tail.len()) as u32).to_le_bytes());
                tail.extend_from_slice(b);
            }
        }
    }
    head.extend(tail);
    head
}

pub fn var_list(items: &[Vec<u8>]) -> Vec<u8> {
    let parts: Vec<Part> = items.iter().map(|i| Part::Var(i.clone())).collect();
    container(&parts)
}

/// Splits a list of variable-size items as the encoding rules demand, or refuses it.
pub fn split_var_list(b: &[u8], max: usize) -> Option<Vec<Vec<u8>>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    let off = |i: usize| -> Option<usize> {
        Some(u32::from_le_bytes(b.get(i * 4..i * 4 + 4)?.try_into().ok()?) as usize)
    };
    let first = off(0)?;
    if first % 4 != 0 || first == 0 || first > b.len() {
        return None;
    }
    let n = first / 4;
    if n > max {
        return None;
    }
    let mut offs = vec![];
    for i in 0..n {
        offs.push(off(i)?);
    }
    offs.push(b.len());
    let mut out = vec![];
    for w in offs.windows(2) {
        if w[0] > w[1] || w[1] > b.len() {
            return None;
        }
        out.push(b[w[0]..w[1]].to_vec());
    }
    Some(out)
}

/// Splits a container given the fixed sizes (None = variable part).
pub fn split_container(b: &[u8], layout: &[Option<usize>]) -> Option<Vec<Vec<u8>>> {
    let fixed: usize = layout.iter().map(|l| l.unwrap_or(4)).sum();
    if b.len() < fixed {
        return None;
    }
    let mut offs = vec![];
    let mut at = 0;
    for l in layout {
        if l.is_none() {
            offs.push(u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize);
        }
        at += l.unwrap_or(4);
    }
    if offs.is_empty() {
        if b.len() != fixed {
            return None;
        }
    } else if offs[0] != fixed {
        return None;
    }
    offs.push(b.len());
    for w in offs.windows(2) {
        if w[0] > w[1] {
            return None;
        }
    }
    let mut out = vec![];
    let (mut at, mut vi) = (0, 0);
    for l in layout {
        match l {
            Some(n) => {
                out.push(b[at..at + n].to_vec());
                at += n;
            }
            None => {
                out.push(b[offs[vi]..offs[vi + 1]].to_vec());
                vi += 1;
                at += 4;
            }
        }
    }
    Some(out)
}

pub fn zero_hash(depth: usize) -> H {
    let mut h = [0; 32];
    for _ in 0..depth {
        h = sha2(&h, &h);
    }
    h
}

/// Root of a tree of the given depth over the chunks, padded with zero chunks.
pub fn merkleize(chunks: &[H], depth: usize) -> H {
    let mut level = chunks.to_vec();
    let mut zero = [0; 32];
    for _ in 0..depth {
        let mut next = Vec::with_capacity(level.len().div_ceil(2));
        for p in level.chunks(2) {
            next.push(sha2(&p[0], p.get(1).unwrap_or(&zero)));
        }
        level = next;
        zero = sha2(&zero, &zero);
    }
    level.first().copied().unwrap_or(zero)
}

/// Sibling hashes of leaf `index`, leaf level first.
pub fn merkle_proof(chunks: &[H], depth: usize, index: usize) -> Vec<H> {
    let mut level = chunks.to_vec();
    let mut zero = [0; 32];
    let mut out = vec![];
    let mut i = index;
    for _ in 0..depth {
        out.push(level.get(i ^ 1).copied().unwrap_or(zero));
        let mut next = Vec::with_capacity(level.len().div_ceil(2));
        for p in level.chunks(2) {
            next.push(sha2(&p[0], p.get(1).unwrap_or(&zero)));
        }
        level = next;
        zero = sha2(&zero, &zero);
        i /= 2;
    }
    out
}

pub fn depth_of(limit: usize) -> usize {
    limit.next_power_of_two().trailing_zeros() as usize
}

pub fn mix_in_length(root: &H, len: usize) -> H {
    let mut l = [0; 32];
    l[..8].copy_from_slice(&(len as u64).to_le_bytes());
    sha2(root, &l)
}

pub fn pack(b: &[u8]) -> Vec<H> {
    b.chunks(32)
        .map(|c| {
            let mut h = [0; 32];
            h[..c.len()].copy_from_slice(c);
            h
        })
        .collect()
}

/// Root of a fixed byte vector.
pub fn root_bytes(b: &[u8]) -> H {
    let chunks = pack(b);
    merkleize(&chunks, depth_of(chunks.len().max(1)))
}

/// Root of a byte list with a maximum length.
pub fn root_byte_list(b: &[u8], limit: usize) -> H {
    let chunks = pack(b);
    mix_in_length(&merkleize(&chunks, depth_of(limit.div_ceil(32).max(1))), b.len())
}

pub fn root_u64(n: u64) -> H {
    let mut h = [0; 32];
    h[..8].copy_from_slice(&n.to_le_bytes());
    h
}

pub fn root_container(fields: &[H]) -> H {
    merkleize(fields, depth_of(fields.len().max(1)))
}

pub fn root_list(roots: &[H], limit: usize) -> H {
    mix_in_length(&merkleize(roots, depth_of(limit)), roots.len())
}
