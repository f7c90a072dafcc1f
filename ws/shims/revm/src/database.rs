use std::{
    collections::BTreeMap,
    error::Error,
    sync::atomic::{AtomicUsize, Ordering},
};

use revm_primitives::{Address, B256, KECCAK_EMPTY, U256};

use crate::{
    context::DBErrorMarker,
    state::{AccountInfo, Bytecode, EvmState},
};

pub trait Database {
    type Error: DBErrorMarker + Error;
    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, Self::Error>;
    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, Self::Error>;
    fn storage(&mut self, address: Address, index: U256) -> Result<U256, Self::Error>;
    fn block_hash(&mut self, number: u64) -> Result<B256, Self::Error>;
}
pub trait DatabaseRef {
    type Error: DBErrorMarker + Error;
    fn basic_ref(&self, address: Address) -> Result<Option<AccountInfo>, Self::Error>;
    fn code_by_hash_ref(&self, code_hash: B256) -> Result<Bytecode, Self::Error>;
    fn storage_ref(&self, address: Address, index: U256) -> Result<U256, Self::Error>;
    fn block_hash_ref(&self, number: u64) -> Result<B256, Self::Error>;
}
pub trait DatabaseCommit {
    fn commit(&mut self, changes: EvmState);
}
impl<D: Database + ?Sized> Database for &mut D {
    type Error = D::Error;
    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, Self::Error> {
        (**self).basic(address)
    }
    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, Self::Error> {
        (**self).code_by_hash(code_hash)
    }
    fn storage(&mut self, address: Address, index: U256) -> Result<U256, Self::Error> {
        (**self).storage(address, index)
    }
    fn block_hash(&mut self, number: u64) -> Result<B256, Self::Error> {
        (**self).block_hash(number)
    }
}
macro_rules! forward {
    ($($t:ty),*) => {$(
        impl<D: DatabaseRef + ?Sized> DatabaseRef for $t {
            type Error = D::Error;
            fn basic_ref(&self, address: Address) -> Result<Option<AccountInfo>, Self::Error> {
                (**self).basic_ref(address)
            }
            fn code_by_hash_ref(&self, code_hash: B256) -> Result<Bytecode, Self::Error> {
                (**self).code_by_hash_ref(code_hash)
            }
            fn storage_ref(&self, address: Address, index: U256) -> Result<U256, Self::Error> {
                (**self).storage_ref(address, index)
            }
            fn block_hash_ref(&self, number: u64) -> Result<B256, Self::Error> {
                (**self).block_hash_ref(number)
            }
        }
    )*};
}
forward!(&D, &mut D);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OriginalValuesKnown {
    Yes,
    No,
}
pub mod states {
    pub use super::{BundleAccount, BundleState, PlainStateReverts, PlainStorageChangeset, StateChangeset};
    pub mod bundle_state {
        pub use super::super::{BundleRetention, BundleState};
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BundleRetention {
    PlainState,
    Reverts,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct PlainStorageChangeset {
    pub address: Address,
    pub wipe_storage: bool,
    pub storage: Vec<(U256, U256)>,
}
#[derive(Clone, Debug, Default)]
pub struct StateChangeset {
    pub accounts: Vec<(Address, Option<AccountInfo>)>,
    pub storage: Vec<PlainStorageChangeset>,
    pub contracts: Vec<(B256, Bytecode)>,
}
#[derive(Clone, Debug, Default)]
pub struct PlainStateReverts;
/// What happened to an account since the bundle was started.
#[derive(Clone, Debug, Default)]
pub struct BundleAccount {
    pub info: Option<AccountInfo>,
    pub original_info: Option<AccountInfo>,
    /// Value at the start, value now.
    pub storage: BTreeMap<U256, (U256, U256)>,
    pub was_destroyed: bool,
}
#[derive(Clone, Debug, Default)]
pub struct BundleState {
    pub state: BTreeMap<Address, BundleAccount>,
    pub contracts: BTreeMap<B256, Bytecode>,
}
impl BundleState {
    pub fn size_hint(&self) -> usize {
        self.state.values().map(|a| 1 + a.storage.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.state.is_empty()
    }
    pub fn to_plain_state_and_reverts(&self, known: OriginalValuesKnown) -> (StateChangeset, PlainStateReverts) {
        (self.to_plain_state(known), PlainStateReverts)
    }
    pub fn to_plain_state(&self, known: OriginalValuesKnown) -> StateChangeset {
        let all = known == OriginalValuesKnown::No;
        let mut out = StateChangeset::default();
        for (address, a) in &self.state {
            if all || a.info != a.original_info {
                out.accounts.push((*address, a.info.clone().map(AccountInfo::without_code)));
            }
            let storage: Vec<_> = a
                .storage
                .iter()
                .filter(|(_, (orig, now))| all || if a.was_destroyed { !now.is_zero() } else { orig != now })
                .map(|(k, (_, now))| (*k, *now))
                .collect();
            if !storage.is_empty() || a.was_destroyed {
                out.storage.push(PlainStorageChangeset { address: *address, wipe_storage: a.was_destroyed, storage });
            }
        }
        // The order of accounts is that of a hash table: nobody may rely on it.
        mix(&mut out.accounts);
        mix(&mut out.storage);
        out.contracts = self
            .contracts
            .iter()
            .filter(|(h, _)| **h != KECCAK_EMPTY)
            .map(|(h, c)| (*h, c.clone()))
            .collect();
        out
    }
}
fn mix<T>(v: &mut [T]) {
    let n = v.len();
    if n > 1 {
        let mut x = (n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for i in (1..n).rev() {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.swap(i, (x % (i as u64 + 1)) as usize);
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Cached {
    info: Option<AccountInfo>,
    storage: BTreeMap<U256, U256>,
    /// Slots that are not listed are empty, whatever the database says.
    fresh: bool,
}
static SIZE_BIAS: AtomicUsize = AtomicUsize::new(0);
/// Added to every answer about the size of pending changes.
pub fn size_bias(n: usize) {
    SIZE_BIAS.store(n, Ordering::SeqCst);
}

pub struct State<DB> {
    cache: BTreeMap<Address, Cached>,
    hashes: BTreeMap<u64, B256>,
    codes: BTreeMap<B256, Bytecode>,
    pub database: DB,
    clear_empty: bool,
    keep_bundle: bool,
    pub bundle_state: BundleState,
    pending: BundleState,
}
pub struct StateBuilder<DB> {
    database: DB,
    bundle: bool,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct EmptyDB;
impl State<EmptyDB> {
    pub fn builder() -> StateBuilder<EmptyDB> {
        StateBuilder { database: EmptyDB, bundle: false }
    }
}
impl<DB> StateBuilder<DB> {
    pub fn with_database<D: Database>(self, database: D) -> StateBuilder<D> {
        StateBuilder { database, bundle: self.bundle }
    }
    pub fn with_bundle_update(self) -> Self {
        Self { bundle: true, ..self }
    }
    pub fn build(self) -> State<DB> {
        State {
            cache: BTreeMap::new(),
            hashes: BTreeMap::new(),
            codes: BTreeMap::new(),
            database: self.database,
            clear_empty: true,
            keep_bundle: self.bundle,
            bundle_state: Default::default(),
            pending: Default::default(),
        }
    }
}
impl<DB: Database> State<DB> {
    pub fn set_state_clear_flag(&mut self, on: bool) {
        self.clear_empty = on;
    }
    fn cached(&mut self, a: Address) -> Result<&mut Cached, DB::Error> {
        if let std::collections::btree_map::Entry::Vacant(e) = self.cache.entry(a) {
            let info = self.database.basic(a)?;
            let fresh = info.is_none();
            e.insert(Cached { info, storage: BTreeMap::new(), fresh });
        }
        Ok(self.cache.get_mut(&a).unwrap())
    }
    /// Notes what an account has become; `slots` are previous and present values.
    fn note(&mut self, a: Address, before: Option<AccountInfo>, after: Option<AccountInfo>, destroyed: bool, slots: Vec<(U256, U256, U256)>) {
        if let Some(i) = &after {
            if let Some(c) = &i.code {
                if !i.is_empty_code_hash() {
                    self.pending.contracts.insert(i.code_hash, c.clone());
                    self.codes.insert(i.code_hash, c.clone());
                }
            }
        }
        let e = self.pending.state.entry(a).or_insert_with(|| BundleAccount {
            original_info: before.clone(),
            info: before,
            ..Default::default()
        });
        e.info = after;
        if destroyed {
            e.was_destroyed = true;
            e.storage.clear();
        }
        for (k, old, new) in slots {
            e.storage.entry(k).or_insert((old, new)).1 = new;
        }
    }
    pub fn increment_balances(&mut self, balances: impl IntoIterator<Item = (Address, u128)>) -> Result<(), DB::Error> {
        for (a, b) in balances {
            if b == 0 {
                continue;
            }
            let c = self.cached(a)?;
            let before = c.info.clone();
            let mut i = c.info.clone().unwrap_or_default();
            i.balance += U256::from(b);
            c.info = Some(i.clone());
            self.note(a, before, Some(i), false, vec![]);
        }
        Ok(())
    }
    pub fn drain_balances(&mut self, addresses: impl IntoIterator<Item = Address>) -> Result<Vec<u128>, DB::Error> {
        let mut out = vec![];
        for a in addresses {
            let c = self.cached(a)?;
            let before = c.info.clone();
            let mut i = c.info.clone().unwrap_or_default();
            out.push(i.balance.try_into().unwrap());
            i.balance = U256::ZERO;
            c.info = Some(i.clone());
            self.note(a, before, Some(i), false, vec![]);
        }
        Ok(out)
    }
    pub fn merge_transitions(&mut self, _: BundleRetention) {
        let p = std::mem::take(&mut self.pending);
        if !self.keep_bundle {
            return;
        }
        self.bundle_state.contracts.extend(p.contracts);
        for (a, b) in p.state {
            match self.bundle_state.state.get_mut(&a) {
                None => {
                    self.bundle_state.state.insert(a, b);
                }
                Some(e) => {
                    e.info = b.info;
                    if b.was_destroyed {
                        e.was_destroyed = true;
                        e.storage.clear();
                    }
                    for (k, (old, new)) in b.storage {
                        e.storage.entry(k).or_insert((old, new)).1 = new;
                    }
                }
            }
        }
    }
    pub fn take_bundle(&mut self) -> BundleState {
        std::mem::take(&mut self.bundle_state)
    }
    pub fn bundle_size_hint(&self) -> usize {
        self.bundle_state.size_hint() + SIZE_BIAS.load(Ordering::SeqCst)
    }
}
impl<DB: Database> Database for State<DB> {
    type Error = DB::Error;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DB::Error> {
        Ok(self.cached(a)?.info.clone())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DB::Error> {
        if let Some(c) = self.codes.get(&h) {
            return Ok(c.clone());
        }
        let c = self.database.code_by_hash(h)?;
        self.codes.insert(h, c.clone());
        Ok(c)
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DB::Error> {
        let c = self.cached(a)?;
        if let Some(v) = c.storage.get(&k) {
            return Ok(*v);
        }
        if c.fresh {
            return Ok(U256::ZERO);
        }
        let v = self.database.storage(a, k)?;
        self.cached(a)?.storage.insert(k, v);
        Ok(v)
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DB::Error> {
        if let Some(h) = self.hashes.get(&n) {
            return Ok(*h);
        }
        let h = self.database.block_hash(n)?;
        self.hashes.insert(n, h);
        let oldest = n.saturating_sub(256);
        self.hashes.retain(|k, _| *k >= oldest);
        Ok(h)
    }
}
impl<DB: Database> DatabaseCommit for State<DB> {
    fn commit(&mut self, changes: EvmState) {
        let changes: BTreeMap<_, _> = changes.into_iter().collect();
        let clear = self.clear_empty;
        for (a, acc) in changes {
            if !acc.touched {
                continue;
            }
            let c = self.cache.get_mut(&a).expect("all accounts should be present inside cache");
            let before = c.info.clone();
            if acc.selfdestructed {
                c.info = None;
                c.fresh = true;
                c.storage.clear();
                if before.is_some() {
                    self.note(a, before, None, true, vec![]);
                }
                continue;
            }
            if acc.created {
                c.fresh = true;
                c.storage.clear();
            } else if acc.info.is_empty() && clear {
                c.info = None;
                c.fresh = true;
                c.storage.clear();
                if before.is_some() {
                    self.note(a, before, None, true, vec![]);
                }
                continue;
            }
            let slots: Vec<_> = acc
                .storage
                .iter()
                .filter(|(_, s)| s.is_changed())
                .map(|(k, s)| (*k, s.original_value, s.present_value))
                .collect();
            for (k, _, v) in &slots {
                c.storage.insert(*k, *v);
            }
            c.info = Some(acc.info.clone());
            self.note(a, before, Some(acc.info), false, slots);
        }
    }
}
