//! The bucket table of the discovery protocol.
use std::{
    collections::VecDeque,
    fmt,
    hash::{Hash, Hasher},
    time::{Duration, Instant},
};

use alloy_primitives::U256;

use crate::enr::NodeId;

pub const MAX_NODES_PER_BUCKET: usize = 16;
pub const NUM_BUCKETS: usize = 256;

#[derive(Clone, Debug)]
pub struct Key<T> {
    preimage: T,
    hash: [u8; 32],
}
impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.hash == o.hash
    }
}
impl<T> Eq for Key<T> {}
impl<T> Hash for Key<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.hash.hash(h)
    }
}
impl<T> AsRef<Key<T>> for Key<T> {
    fn as_ref(&self) -> &Key<T> {
        self
    }
}
impl<T> Key<T> {
    pub fn new_raw(preimage: T, hash: [u8; 32]) -> Self {
        Self { preimage, hash }
    }
    pub fn preimage(&self) -> &T {
        &self.preimage
    }
    pub fn into_preimage(self) -> T {
        self.preimage
    }
    pub fn distance<U>(&self, o: &Key<U>) -> Distance {
        Distance(U256::from_be_bytes(self.hash) ^ U256::from_be_bytes(o.hash))
    }
    pub fn log2_distance<U>(&self, o: &Key<U>) -> Option<u64> {
        self.distance(o).log2()
    }
}
impl From<NodeId> for Key<NodeId> {
    fn from(n: NodeId) -> Self {
        Key { preimage: n, hash: n.raw() }
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Default, PartialOrd, Ord, Debug)]
pub struct Distance(pub U256);
impl Distance {
    pub fn log2(&self) -> Option<u64> {
        match 256 - self.0.leading_zeros() {
            0 => None,
            n => Some(n as u64),
        }
    }
}

#[derive(PartialEq, Eq, Debug, Copy, Clone)]
pub enum ConnectionState {
    Connected,
    Disconnected,
}
#[derive(PartialEq, Eq, Debug, Copy, Clone)]
pub enum ConnectionDirection {
    Incoming,
    Outgoing,
}
impl fmt::Display for ConnectionDirection {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(PartialEq, Eq, Debug, Copy, Clone)]
pub struct NodeStatus {
    pub direction: ConnectionDirection,
    pub state: ConnectionState,
}
impl NodeStatus {
    pub fn is_connected(&self) -> bool {
        self.state == ConnectionState::Connected
    }
    pub fn is_incoming(&self) -> bool {
        self.direction == ConnectionDirection::Incoming
    }
}
pub trait FilterClone<TVal: Eq> {
    fn clone_box(&self) -> Box<dyn Filter<TVal>>;
}
impl<T: 'static + Filter<TVal> + Clone, TVal: Eq> FilterClone<TVal> for T {
    fn clone_box(&self) -> Box<dyn Filter<TVal>> {
        Box::new(self.clone())
    }
}
impl<TVal: Eq> Clone for Box<dyn Filter<TVal>> {
    fn clone(&self) -> Self {
        (**self).clone_box()
    }
}
pub trait Filter<TVal: Eq>: FilterClone<TVal> + Send + Sync {
    fn filter(&self, value: &TVal, others: &mut dyn Iterator<Item = &TVal>) -> bool;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node<TNodeId, TVal: Eq> {
    pub key: Key<TNodeId>,
    pub value: TVal,
    pub status: NodeStatus,
}
#[derive(Debug, Clone)]
pub struct PendingNode<TNodeId, TVal: Eq> {
    node: Node<TNodeId, TVal>,
    replace: Instant,
}
impl<TNodeId, TVal: Eq> PendingNode<TNodeId, TVal> {
    pub fn status(&self) -> NodeStatus {
        self.node.status
    }
    pub fn value_mut(&mut self) -> &mut TVal {
        &mut self.node.value
    }
    pub fn set_ready_at(&mut self, t: Instant) {
        self.replace = t
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AppliedPending<TNodeId, TVal: Eq> {
    pub inserted: Key<TNodeId>,
    pub evicted: Option<Node<TNodeId, TVal>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FailureReason {
    TooManyIncoming,
    BucketFilter,
    TableFilter,
    KeyNonExistent,
    BucketFull,
    InvalidSelfUpdate,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InsertResult<TNodeId> {
    Inserted,
    Pending { disconnected: Key<TNodeId> },
    StatusUpdated { promoted_to_connected: bool },
    ValueUpdated,
    Updated { promoted_to_connected: bool },
    UpdatedPending,
    Failed(FailureReason),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum UpdateResult {
    Updated,
    UpdatedAndPromoted,
    UpdatedPending,
    Failed(FailureReason),
    NotModified,
}
impl UpdateResult {
    pub fn failed(&self) -> bool {
        matches!(self, UpdateResult::Failed(_))
    }
}
enum BucketInsert<TNodeId> {
    Inserted,
    Pending { disconnected: Key<TNodeId> },
    TooManyIncoming,
    FailedFilter,
    Full,
    NodeExists,
}

#[derive(Clone)]
pub struct KBucket<TNodeId, TVal: Eq> {
    nodes: Vec<Node<TNodeId, TVal>>,
    first_connected_pos: Option<usize>,
    pending: Option<PendingNode<TNodeId, TVal>>,
    pending_timeout: Duration,
    filter: Option<Box<dyn Filter<TVal>>>,
    max_incoming: usize,
}
impl<TNodeId: Clone, TVal: Eq + Clone> KBucket<TNodeId, TVal> {
    fn position(&self, key: &Key<TNodeId>) -> Option<usize> {
        self.nodes.iter().position(|n| n.key == *key)
    }
    pub fn num_entries(&self) -> usize {
        self.nodes.len()
    }
    pub fn is_full(&self) -> bool {
        self.nodes.len() >= MAX_NODES_PER_BUCKET
    }
    fn passes_filter(&self, key: &Key<TNodeId>, value: &TVal) -> bool {
        match &self.filter {
            None => true,
            Some(f) => f.filter(value, &mut self.nodes.iter().filter(|n| n.key != *key).map(|n| &n.value)),
        }
    }
    fn is_max_incoming(&self) -> bool {
        self.nodes
            .iter()
            .filter(|n| n.status.is_connected() && n.status.is_incoming())
            .count()
            >= self.max_incoming
    }
    fn apply_pending(&mut self) -> Option<AppliedPending<TNodeId, TVal>> {
        let pending = self.pending.take()?;
        if pending.replace > Instant::now() {
            self.pending = Some(pending);
            return None;
        }
        if self.is_full() {
            if self.nodes[0].status.is_connected() {
                return None;
            }
            if !self.passes_filter(&pending.node.key, &pending.node.value) {
                return None;
            }
            if pending.node.status.is_connected()
                && pending.node.status.is_incoming()
                && self.is_max_incoming()
            {
                return None;
            }
            let inserted = pending.node;
            let evicted = self.nodes.remove(0);
            self.first_connected_pos = self.first_connected_pos.and_then(|p| p.checked_sub(1));
            let key = inserted.key.clone();
            if inserted.status.is_connected() {
                if self.first_connected_pos.is_none() {
                    self.first_connected_pos = Some(self.nodes.len());
                }
                self.nodes.push(inserted);
            } else if let Some(p) = self.first_connected_pos {
                self.nodes.insert(p, inserted);
                self.first_connected_pos = Some(p + 1);
            } else {
                self.nodes.push(inserted);
            }
            return Some(AppliedPending { inserted: key, evicted: Some(evicted) });
        }
        let key = pending.node.key.clone();
        match self.insert(pending.node) {
            BucketInsert::Inserted => Some(AppliedPending { inserted: key, evicted: None }),
            _ => None,
        }
    }
    fn insert(&mut self, node: Node<TNodeId, TVal>) -> BucketInsert<TNodeId> {
        if self.position(&node.key).is_some() {
            return BucketInsert::NodeExists;
        }
        if !self.passes_filter(&node.key, &node.value) {
            return BucketInsert::FailedFilter;
        }
        let inserting_pending = self.pending.as_ref().is_some_and(|p| p.node.key == node.key);
        let result = if node.status.is_connected() {
            if node.status.is_incoming() && self.is_max_incoming() {
                return BucketInsert::TooManyIncoming;
            }
            if self.is_full() {
                if self.first_connected_pos == Some(0) || self.pending.is_some() {
                    return BucketInsert::Full;
                }
                self.pending = Some(PendingNode {
                    node,
                    replace: Instant::now() + self.pending_timeout,
                });
                return BucketInsert::Pending {
                    disconnected: self.nodes[0].key.clone(),
                };
            }
            let pos = self.nodes.len();
            self.first_connected_pos = self.first_connected_pos.or(Some(pos));
            self.nodes.push(node);
            BucketInsert::Inserted
        } else {
            if self.is_full() {
                return BucketInsert::Full;
            }
            if let Some(p) = self.first_connected_pos {
                self.nodes.insert(p, node);
                self.first_connected_pos = Some(p + 1);
            } else {
                self.nodes.push(node);
            }
            BucketInsert::Inserted
        };
        if inserting_pending {
            self.pending = None;
        }
        result
    }
    fn remove(&mut self, key: &Key<TNodeId>) -> bool {
        if let Some(pos) = self.position(key) {
            self.remove_at(pos);
            self.apply_pending();
            true
        } else {
            false
        }
    }
    fn remove_at(&mut self, pos: usize) -> Node<TNodeId, TVal> {
        let n = self.nodes.remove(pos);
        if let Some(p) = self.first_connected_pos {
            self.first_connected_pos = if pos < p {
                Some(p - 1)
            } else if p == self.nodes.len() {
                None
            } else {
                Some(p)
            };
        }
        n
    }
    fn update_status(
        &mut self,
        key: &Key<TNodeId>,
        state: ConnectionState,
        direction: Option<ConnectionDirection>,
    ) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            let mut node = self.remove_at(pos);
            let old = node.status;
            node.status.state = state;
            if let Some(d) = direction {
                node.status.direction = d;
            }
            let (promoted, modified) = (
                !old.is_connected() && node.status.is_connected(),
                old != node.status,
            );
            match self.insert(node) {
                BucketInsert::Inserted => {
                    if promoted {
                        UpdateResult::UpdatedAndPromoted
                    } else if modified {
                        UpdateResult::Updated
                    } else {
                        UpdateResult::NotModified
                    }
                }
                BucketInsert::TooManyIncoming => UpdateResult::Failed(FailureReason::TooManyIncoming),
                BucketInsert::FailedFilter => UpdateResult::Failed(FailureReason::BucketFilter),
                _ => UpdateResult::Failed(FailureReason::BucketFull),
            }
        } else if let Some(p) = self.pending.as_mut().filter(|p| p.node.key == *key) {
            p.node.status.state = state;
            if let Some(d) = direction {
                p.node.status.direction = d;
            }
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
    fn update_value(&mut self, key: &Key<TNodeId>, value: TVal) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            if self.nodes[pos].value == value {
                return UpdateResult::NotModified;
            }
            if !self.passes_filter(key, &value) {
                self.remove_at(pos);
                return UpdateResult::Failed(FailureReason::BucketFilter);
            }
            self.nodes[pos].value = value;
            UpdateResult::Updated
        } else if let Some(p) = self.pending.as_mut().filter(|p| p.node.key == *key) {
            p.node.value = value;
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
}
impl<TNodeId, TVal: Eq> KBucket<TNodeId, TVal> {
    pub fn iter(&self) -> impl Iterator<Item = &Node<TNodeId, TVal>> {
        self.nodes.iter()
    }
    pub fn nodes(&self) -> impl Iterator<Item = &Node<TNodeId, TVal>> {
        self.nodes.iter()
    }
}

#[derive(Clone)]
pub struct KBucketsTable<TNodeId, TVal: Eq> {
    local_key: Key<TNodeId>,
    buckets: Vec<KBucket<TNodeId, TVal>>,
    applied_pending: VecDeque<AppliedPending<TNodeId, TVal>>,
    table_filter: Option<Box<dyn Filter<TVal>>>,
}
pub struct EntryRefView<'a, TNodeId, TVal: Eq> {
    pub node: NodeRefView<'a, TNodeId, TVal>,
    pub status: NodeStatus,
}
pub struct NodeRefView<'a, TNodeId, TVal: Eq> {
    pub key: &'a Key<TNodeId>,
    pub value: &'a TVal,
}
pub struct PresentEntry<'a, TNodeId, TVal: Eq> {
    node: &'a mut Node<TNodeId, TVal>,
}
impl<'a, TNodeId, TVal: Eq> PresentEntry<'a, TNodeId, TVal> {
    pub fn key(&self) -> &Key<TNodeId> {
        &self.node.key
    }
    pub fn value(&self) -> &TVal {
        &self.node.value
    }
    pub fn value_mut(&mut self) -> &mut TVal {
        &mut self.node.value
    }
}
pub struct PendingEntry<'a, TNodeId, TVal: Eq> {
    node: &'a mut PendingNode<TNodeId, TVal>,
}
impl<'a, TNodeId, TVal: Eq> PendingEntry<'a, TNodeId, TVal> {
    pub fn value(&mut self) -> &mut TVal {
        &mut self.node.node.value
    }
}
pub struct AbsentEntry<'a, TNodeId, TVal: Eq> {
    bucket: &'a mut KBucket<TNodeId, TVal>,
    key: &'a Key<TNodeId>,
}
impl<'a, TNodeId: Clone, TVal: Eq + Clone> AbsentEntry<'a, TNodeId, TVal> {
    pub fn insert(self, value: TVal, status: NodeStatus) -> InsertResult<TNodeId> {
        match self.bucket.insert(Node { key: self.key.clone(), value, status }) {
            BucketInsert::Inserted => InsertResult::Inserted,
            BucketInsert::Pending { disconnected } => InsertResult::Pending { disconnected },
            BucketInsert::TooManyIncoming => InsertResult::Failed(FailureReason::TooManyIncoming),
            BucketInsert::FailedFilter => InsertResult::Failed(FailureReason::BucketFilter),
            _ => InsertResult::Failed(FailureReason::BucketFull),
        }
    }
}
pub enum Entry<'a, TNodeId, TVal: Eq> {
    Present(PresentEntry<'a, TNodeId, TVal>, NodeStatus),
    Pending(PendingEntry<'a, TNodeId, TVal>, NodeStatus),
    Absent(AbsentEntry<'a, TNodeId, TVal>),
    SelfEntry,
}
impl<TNodeId, TVal: Eq> KBucketsTable<TNodeId, TVal> {
    pub fn buckets_iter(&self) -> impl Iterator<Item = &KBucket<TNodeId, TVal>> {
        self.buckets.iter()
    }
}
impl<TNodeId: Clone, TVal: Eq + Clone> KBucketsTable<TNodeId, TVal> {
    pub fn new(
        local_key: Key<TNodeId>,
        pending_timeout: Duration,
        max_incoming_per_bucket: usize,
        table_filter: Option<Box<dyn Filter<TVal>>>,
        bucket_filter: Option<Box<dyn Filter<TVal>>>,
    ) -> Self {
        Self {
            local_key,
            buckets: (0..NUM_BUCKETS)
                .map(|_| KBucket {
                    nodes: vec![],
                    first_connected_pos: None,
                    pending: None,
                    pending_timeout,
                    filter: bucket_filter.clone(),
                    max_incoming: max_incoming_per_bucket,
                })
                .collect(),
            applied_pending: VecDeque::new(),
            table_filter,
        }
    }
    fn index(&self, key: &Key<TNodeId>) -> Option<usize> {
        self.local_key.log2_distance(key).map(|d| d as usize - 1)
    }
    fn passes_table_filter(&self, key: &Key<TNodeId>, value: &TVal) -> bool {
        match &self.table_filter {
            None => true,
            Some(f) => f.filter(
                value,
                &mut self
                    .buckets
                    .iter()
                    .flat_map(|b| b.nodes.iter())
                    .filter(|n| n.key != *key)
                    .map(|n| &n.value),
            ),
        }
    }
    fn apply(&mut self, i: usize) {
        if let Some(a) = self.buckets[i].apply_pending() {
            self.applied_pending.push_back(a);
        }
    }
    pub fn update_node_status(
        &mut self,
        key: &Key<TNodeId>,
        state: ConnectionState,
        direction: Option<ConnectionDirection>,
    ) -> UpdateResult {
        let Some(i) = self.index(key) else {
            return UpdateResult::NotModified;
        };
        self.apply(i);
        self.buckets[i].update_status(key, state, direction)
    }
    pub fn update_node(&mut self, key: &Key<TNodeId>, value: TVal, state: Option<ConnectionState>) -> UpdateResult {
        let Some(i) = self.index(key) else {
            return UpdateResult::NotModified;
        };
        self.apply(i);
        if !self.passes_table_filter(key, &value) {
            self.buckets[i].remove(key);
            return UpdateResult::Failed(FailureReason::TableFilter);
        }
        let u = self.buckets[i].update_value(key, value);
        if u.failed() {
            return u;
        }
        let Some(state) = state else { return u };
        let s = self.buckets[i].update_status(key, state, None);
        match (u, s) {
            (_, s @ UpdateResult::Failed(_)) => s,
            (_, UpdateResult::UpdatedAndPromoted) => UpdateResult::UpdatedAndPromoted,
            (UpdateResult::UpdatedPending, _) => UpdateResult::UpdatedPending,
            (UpdateResult::NotModified, s) => s,
            (u, _) => u,
        }
    }
    pub fn insert_or_update(&mut self, key: &Key<TNodeId>, value: TVal, status: NodeStatus) -> InsertResult<TNodeId> {
        let Some(i) = self.index(key) else {
            return InsertResult::Failed(FailureReason::InvalidSelfUpdate);
        };
        self.apply(i);
        if !self.passes_table_filter(key, &value) {
            self.buckets[i].remove(key);
            return InsertResult::Failed(FailureReason::TableFilter);
        }
        if self.buckets[i].position(key).is_none()
            && !self.buckets[i].pending.as_ref().is_some_and(|p| p.node.key == *key)
        {
            return AbsentEntry { bucket: &mut self.buckets[i], key }.insert(value, status);
        }
        let s = self.buckets[i].update_status(key, status.state, Some(status.direction));
        if let UpdateResult::Failed(r) = s {
            return InsertResult::Failed(r);
        }
        let v = self.buckets[i].update_value(key, value);
        if let UpdateResult::Failed(r) = v {
            return InsertResult::Failed(r);
        }
        match (v, s) {
            (UpdateResult::UpdatedPending, _) => InsertResult::UpdatedPending,
            (UpdateResult::Updated, UpdateResult::NotModified) => InsertResult::ValueUpdated,
            (UpdateResult::Updated, s) => InsertResult::Updated {
                promoted_to_connected: s == UpdateResult::UpdatedAndPromoted,
            },
            (_, UpdateResult::NotModified) => InsertResult::Updated { promoted_to_connected: false },
            (_, s) => InsertResult::StatusUpdated {
                promoted_to_connected: s == UpdateResult::UpdatedAndPromoted,
            },
        }
    }
    pub fn remove(&mut self, key: &Key<TNodeId>) -> bool {
        match self.index(key) {
            Some(i) => {
                self.apply(i);
                self.buckets[i].remove(key)
            }
            None => false,
        }
    }
    pub fn entry<'a>(&'a mut self, key: &'a Key<TNodeId>) -> Entry<'a, TNodeId, TVal> {
        let Some(i) = self.index(key) else {
            return Entry::SelfEntry;
        };
        self.apply(i);
        let b = &mut self.buckets[i];
        if let Some(p) = b.position(key) {
            let status = b.nodes[p].status;
            return Entry::Present(PresentEntry { node: &mut b.nodes[p] }, status);
        }
        if b.pending.as_ref().is_some_and(|p| p.node.key == *key) {
            let p = b.pending.as_mut().unwrap();
            let status = p.node.status;
            return Entry::Pending(PendingEntry { node: p }, status);
        }
        Entry::Absent(AbsentEntry { bucket: b, key })
    }
    pub fn iter(&mut self) -> impl Iterator<Item = EntryRefView<'_, TNodeId, TVal>> {
        for i in 0..self.buckets.len() {
            self.apply(i);
        }
        self.buckets.iter().flat_map(|b| {
            b.nodes.iter().map(|n| EntryRefView {
                node: NodeRefView { key: &n.key, value: &n.value },
                status: n.status,
            })
        })
    }
    pub fn nodes_by_distances(&mut self, log2_distances: &[u64], max_nodes: usize) -> Vec<EntryRefView<'_, TNodeId, TVal>> {
        let distances: Vec<u64> = log2_distances
            .iter()
            .copied()
            .filter(|d| *d > 0 && *d <= NUM_BUCKETS as u64)
            .collect();
        for d in &distances {
            self.apply(*d as usize - 1);
        }
        let mut out = vec![];
        for d in distances {
            for n in &self.buckets[d as usize - 1].nodes {
                if out.len() >= max_nodes {
                    return out;
                }
                out.push(EntryRefView {
                    node: NodeRefView { key: &n.key, value: &n.value },
                    status: n.status,
                });
            }
        }
        out
    }
    pub fn closest_keys<T>(&mut self, target: &Key<T>) -> Vec<Key<TNodeId>> {
        let mut v: Vec<Key<TNodeId>> = self.iter().map(|e| e.node.key.clone()).collect();
        v.sort_by_key(|k| k.distance(target));
        v
    }
    pub fn take_applied_pending(&mut self) -> Option<AppliedPending<TNodeId, TVal>> {
        self.applied_pending.pop_front()
    }
}
