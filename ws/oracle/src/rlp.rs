//! Recursive length prefix encoding, written from the definition.

fn len_prefix(len: usize, short: u8, long: u8) -> Vec<u8> {
    if len < 56 {
        vec![short + len as u8]
    } else {
        let be: Vec<u8> = (len as u64)
            .to_be_bytes()
            .into_iter()
            .skip_while(|b| *b == 0)
            .collect();
        let mut o = vec![long + be.len() as u8];
        o.extend(be);
        o
    }
}

pub fn bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = len_prefix(b.len(), 0x80, 0xb7);
    o.extend_from_slice(b);
    o
}

pub fn uint(n: u128) -> Vec<u8> {
    let be: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    bytes(&be)
}

/// Big-endian integer of any width.
pub fn uint_be(n: &[u8]) -> Vec<u8> {
    let be: Vec<u8> = n.iter().copied().skip_while(|b| *b == 0).collect();
    bytes(&be)
}

pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = len_prefix(body.len(), 0xc0, 0xf7);
    o.extend(body);
    o
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Item {
    Bytes(Vec<u8>),
    List(Vec<Item>),
}

impl Item {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Item::Bytes(b) => bytes(b),
            Item::List(l) => list(&l.iter().map(Item::encode).collect::<Vec<_>>()),
        }
    }
    pub fn as_bytes(&self) -> Option<&[u8]> {
        match self {
            Item::Bytes(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_list(&self) -> Option<&[Item]> {
        match self {
            Item::List(l) => Some(l),
            _ => None,
        }
    }
}

/// Reads one canonical item; returns it and the rest.
pub fn parse(b: &[u8]) -> Option<(Item, &[u8])> {
    let (&p, rest) = b.split_first()?;
    let (is_list, len, rest) = match p {
        0..=0x7f => return Some((Item::Bytes(vec![p]), rest)),
        0x80..=0xb7 => (false, (p - 0x80) as usize, rest),
        0xb8..=0xbf => {
            let (l, r) = long(p - 0xb7, rest)?;
            (false, l, r)
        }
        0xc0..=0xf7 => (true, (p - 0xc0) as usize, rest),
        0xf8..=0xff => {
            let (l, r) = long(p - 0xf7, rest)?;
            (true, l, r)
        }
    };
    if rest.len() < len {
        return None;
    }
    let (body, rest) = rest.split_at(len);
    if !is_list {
        if body.len() == 1 && body[0] < 0x80 {
            return None;
        }
        return Some((Item::Bytes(body.to_vec()), rest));
    }
    let mut items = vec![];
    let mut body = body;
    while !body.is_empty() {
        let (i, r) = parse(body)?;
        items.push(i);
        body = r;
    }
    Some((Item::List(items), rest))
}

fn long(n: u8, rest: &[u8]) -> Option<(usize, &[u8])> {
    let n = n as usize;
    if rest.len() < n || rest[0] == 0 {
        return None;
    }
    let mut l: u64 = 0;
    for b in &rest[..n] {
        l = l.checked_mul(256)?.checked_add(*b as u64)?;
    }
    if l < 56 || l > usize::MAX as u64 {
        return None;
    }
    Some((l as usize, &rest[n..]))
}

pub fn parse_all(b: &[u8]) -> Option<Item> {
    match parse(b)? {
        (i, []) => Some(i),
        _ => None,
    }
}
