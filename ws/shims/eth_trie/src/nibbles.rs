#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Nibbles {
    hex_data: Vec<u8>,
}
impl Nibbles {
    pub fn from_hex(hex: &[u8]) -> Self {
        Nibbles { hex_data: hex.to_vec() }
    }
    pub fn from_raw(raw: &[u8], is_leaf: bool) -> Self {
        let mut hex_data = vec![];
        for item in raw {
            hex_data.push(item / 16);
            hex_data.push(item % 16);
        }
        if is_leaf {
            hex_data.push(16);
        }
        Nibbles { hex_data }
    }
    pub fn from_compact(compact: &[u8]) -> Self {
        let mut hex = vec![];
        let flag = compact[0];
        let is_leaf = match flag >> 4 {
            0x0 => false,
            0x1 => {
                hex.push(flag % 16);
                false
            }
            0x2 => true,
            0x3 => {
                hex.push(flag % 16);
                true
            }
            _ => panic!("invalid data"),
        };
        for item in &compact[1..] {
            hex.push(item / 16);
            hex.push(item % 16);
        }
        if is_leaf {
            hex.push(16);
        }
        Nibbles { hex_data: hex }
    }
    pub fn is_leaf(&self) -> bool {
        self.hex_data.last() == Some(&16)
    }
    pub fn encode_compact(&self) -> Vec<u8> {
        let is_leaf = self.is_leaf();
        let mut hex = if is_leaf {
            &self.hex_data[..self.hex_data.len() - 1]
        } else {
            &self.hex_data[..]
        };
        let mut compact = vec![];
        let mut v = if is_leaf { 0x20 } else { 0 };
        if hex.len() % 2 == 1 {
            v |= 0x10 | hex[0];
            hex = &hex[1..];
        }
        compact.push(v);
        for p in hex.chunks(2) {
            compact.push(p[0] * 16 + p[1]);
        }
        compact
    }
    pub fn encode_raw(&self) -> (Vec<u8>, bool) {
        let mut raw = vec![];
        let is_leaf = self.is_leaf();
        let hex = if is_leaf { &self.hex_data[..self.hex_data.len() - 1] } else { &self.hex_data[..] };
        for p in hex.chunks(2) {
            raw.push(p[0] * 16 + p.get(1).copied().unwrap_or(0));
        }
        (raw, is_leaf)
    }
    pub fn at(&self, i: usize) -> usize {
        self.hex_data[i] as usize
    }
    pub fn len(&self) -> usize {
        self.hex_data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.hex_data.is_empty()
    }
    pub fn common_prefix(&self, other: &Nibbles) -> usize {
        self.hex_data.iter().zip(&other.hex_data).take_while(|(a, b)| a == b).count()
    }
    pub fn offset(&self, index: usize) -> Nibbles {
        self.slice(index, self.hex_data.len())
    }
    pub fn slice(&self, start: usize, end: usize) -> Nibbles {
        Nibbles::from_hex(&self.hex_data[start..end])
    }
    pub fn get_data(&self) -> &[u8] {
        &self.hex_data
    }
    pub fn push(&mut self, e: u8) {
        self.hex_data.push(e)
    }
    pub fn pop(&mut self) -> Option<u8> {
        self.hex_data.pop()
    }
    pub fn truncate(&mut self, len: usize) {
        self.hex_data.truncate(len)
    }
    pub fn join(&self, b: &Nibbles) -> Nibbles {
        let mut v = self.hex_data.clone();
        v.extend_from_slice(&b.hex_data);
        Nibbles { hex_data: v }
    }
    pub fn extend(&mut self, b: &Nibbles) {
        self.hex_data.extend_from_slice(&b.hex_data)
    }
}
