//! Merkle tree with the interface of the `rs_merkle` crate (odd nodes are carried up unhashed).
pub trait Hasher: Clone {
    type Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>>;
    fn hash(data: &[u8]) -> Self::Hash;
    fn concat_and_hash(left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        match right {
            None => *left,
            Some(r) => {
                let mut v: Vec<u8> = (*left).into();
                v.extend::<Vec<u8>>((*r).into());
                Self::hash(&v)
            }
        }
    }
}
pub mod algorithms {
    use sha2::Digest;
    #[derive(Clone, Debug)]
    pub struct Sha256;
    impl super::Hasher for Sha256 {
        type Hash = [u8; 32];
        fn hash(data: &[u8]) -> [u8; 32] {
            sha2::Sha256::digest(data).into()
        }
    }
}
#[derive(Clone)]
pub struct MerkleTree<T: Hasher> {
    layers: Vec<Vec<T::Hash>>,
}
pub struct MerkleProof<T: Hasher> {
    hashes: Vec<T::Hash>,
}
impl<T: Hasher> MerkleProof<T> {
    pub fn proof_hashes(&self) -> &[T::Hash] {
        &self.hashes
    }
}
impl<T: Hasher> MerkleTree<T> {
    pub fn from_leaves(leaves: &[T::Hash]) -> Self {
        let mut layers = vec![leaves.to_vec()];
        while layers.last().unwrap().len() > 1 {
            let next = layers
                .last()
                .unwrap()
                .chunks(2)
                .map(|p| T::concat_and_hash(&p[0], p.get(1)))
                .collect();
            layers.push(next);
        }
        Self { layers }
    }
    pub fn root(&self) -> Option<T::Hash> {
        self.layers.last()?.first().copied()
    }
    pub fn leaves(&self) -> Option<Vec<T::Hash>> {
        self.layers.first().cloned()
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<T> {
        let mut idx: Vec<usize> = indices.to_vec();
        let mut hashes = vec![];
        for layer in &self.layers {
            if layer.len() <= 1 {
                break;
            }
            for i in &idx {
                let s = i ^ 1;
                if !idx.contains(&s) {
                    if let Some(h) = layer.get(s) {
                        hashes.push(*h);
                    }
                }
            }
            idx = idx.iter().map(|i| i / 2).collect();
            idx.dedup();
        }
        MerkleProof { hashes }
    }
}
