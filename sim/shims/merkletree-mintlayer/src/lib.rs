//! Stand-in for merkletree-mintlayer (not available offline). A binary merkle tree whose leaves are
//! padded to a power of two, each padding leaf being `hash_single` of the leaf before it.
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum MerkleTreeFormError {
    TooSmall(usize),
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum MerkleTreeProofExtractionError {
    IndexOutOfRange(u32),
}
impl fmt::Display for MerkleTreeFormError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeFormError {}
impl fmt::Display for MerkleTreeProofExtractionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeProofExtractionError {}
pub mod hasher {
    pub trait PairHasher {
        type NodeType;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}
pub mod tree {
    use super::*;
    use std::marker::PhantomData;
    use std::num::NonZeroU32;
    pub struct MerkleTree<T, H> {
        levels: Vec<Vec<T>>,
        _p: PhantomData<fn() -> H>,
    }
    pub struct Node<'a, T> {
        hash: &'a T,
    }
    impl<'a, T> Node<'a, T> {
        pub fn hash(&self) -> &'a T {
            self.hash
        }
    }
    impl<T: Clone, H: hasher::PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut leaves: Vec<T> = leaves.into_iter().collect();
            if leaves.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            while !leaves.len().is_power_of_two() {
                let n = H::hash_single(leaves.last().unwrap());
                leaves.push(n);
            }
            let mut levels = vec![leaves];
            while levels.last().unwrap().len() > 1 {
                let next = levels.last().unwrap().chunks(2).map(|c| H::hash_pair(&c[0], &c[1])).collect();
                levels.push(next);
            }
            Ok(Self { levels, _p: PhantomData })
        }
        pub fn root(&self) -> T {
            self.levels.last().unwrap()[0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels[0].len() as u32).unwrap()
        }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T>> {
            self.levels.get(level as usize)?.get(index as usize).map(|hash| Node { hash })
        }
        pub(crate) fn branch(&self, mut index: usize) -> Vec<T> {
            let mut r = vec![];
            for l in &self.levels[..self.levels.len() - 1] {
                r.push(l[index ^ 1].clone());
                index /= 2;
            }
            r
        }
    }
}
pub mod proof {
    pub mod single {
        use crate::{hasher::PairHasher, tree::MerkleTree, MerkleTreeProofExtractionError};
        use std::marker::PhantomData;
        pub struct SingleProofNodes<'a, T, H> {
            leaf_index: u32,
            branch: Vec<T>,
            _p: PhantomData<fn() -> &'a H>,
        }
        pub struct SingleProofHashes<T, H> {
            leaf_index: u32,
            branch: Vec<T>,
            _p: PhantomData<fn() -> H>,
        }
        impl<'a, T: Clone, H: PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
            pub fn from_tree_leaf(tree: &'a MerkleTree<T, H>, leaf_index: u32) -> Result<Self, MerkleTreeProofExtractionError> {
                if leaf_index >= tree.leaf_count().get() {
                    return Err(MerkleTreeProofExtractionError::IndexOutOfRange(leaf_index));
                }
                Ok(Self { leaf_index, branch: tree.branch(leaf_index as usize), _p: PhantomData })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                SingleProofHashes { leaf_index: self.leaf_index, branch: self.branch, _p: PhantomData }
            }
        }
        impl<T: Clone + Eq, H: PairHasher<NodeType = T>> SingleProofHashes<T, H> {
            pub fn verify(&self, leaf: T, root: T) -> bool {
                let mut i = self.leaf_index;
                let mut h = leaf;
                for s in &self.branch {
                    h = if i % 2 == 0 { H::hash_pair(&h, s) } else { H::hash_pair(s, &h) };
                    i /= 2;
                }
                h == root
            }
        }
    }
}
