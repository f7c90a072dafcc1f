use std::{
    collections::HashMap,
    io::Write,
    ops::{Deref, DerefMut},
};

use revm_primitives::{hardfork::SpecId, keccak256, Address, Bytes, TxKind, B256, KECCAK_EMPTY, U256};

use crate::{
    context::{
        result::{EVMError, ExecutionResult, HaltReason, Output, ResultAndState, SuccessReason},
        BlockEnv, CfgEnv, TxEnv,
    },
    state::{Account, AccountInfo, Bytecode, EvmState, EvmStorageSlot},
    Database,
};

/// Operations of call data.  Each is one byte followed by its operands; values are big-endian
/// words of 32 bytes, addresses have 20 bytes.
pub mod ops {
    /// key, value: writes a slot.
    pub const STORE: u8 = 0x01;
    /// address: destroys the contract and sends what it has there.
    pub const DESTROY: u8 = 0x02;
    /// key, number: writes the hash of a block.
    pub const BLOCK_HASH: u8 = 0x03;
    /// Undoes everything the call did.
    pub const REVERT: u8 = 0x04;
    /// key, which: writes a fact about the block or the transaction.
    pub const FACT: u8 = 0x05;
    /// key, other: writes what is in the other slot plus one.
    pub const COPY: u8 = 0x06;
    /// key, address: writes the balance of an account.
    pub const BALANCE: u8 = 0x07;
    /// key, address: writes the hash of the code of an account.
    pub const CODE: u8 = 0x08;
    /// address, value: sends some of what the contract has.
    pub const SEND: u8 = 0x09;
    /// Ends the program; what follows is the code of a contract being created.
    pub const END: u8 = 0x0a;
    /// key: adds what is in a slot to what the call returns.
    pub const SHOW: u8 = 0x0b;
    pub const GAS: u64 = 100;
    pub const BASE_GAS: u64 = 21_000;
    pub const CREATE_GAS: u64 = 32_000;
    pub const BLOB_GAS: u64 = 131_072;
    pub const FACTS: u8 = 16;
    pub const BEACON_SLOTS: u64 = 8191;
}
const BEACON_ROOTS: Address = alloy::eips::eip4788::BEACON_ROOTS_ADDRESS;

pub trait ContextTr {
    type Db: Database;
    fn block(&self) -> &BlockEnv;
    fn tx(&self) -> &TxEnv;
    fn cfg(&self) -> &CfgEnv;
    fn db(&mut self) -> &mut Self::Db;
    fn db_ref(&self) -> &Self::Db;
}
pub struct Context<DB: Database> {
    pub block: BlockEnv,
    pub tx: TxEnv,
    pub cfg: CfgEnv,
    database: DB,
}
impl<DB: Database> ContextTr for Context<DB> {
    type Db = DB;
    fn block(&self) -> &BlockEnv {
        &self.block
    }
    fn tx(&self) -> &TxEnv {
        &self.tx
    }
    fn cfg(&self) -> &CfgEnv {
        &self.cfg
    }
    fn db(&mut self) -> &mut DB {
        &mut self.database
    }
    fn db_ref(&self) -> &DB {
        &self.database
    }
}
impl<DB: Database> Context<DB> {
    pub fn new(database: DB, spec: SpecId) -> Self {
        Self {
            block: BlockEnv::default(),
            tx: TxEnv::default(),
            cfg: CfgEnv { chain_id: 1, spec, disable_nonce_check: false },
            database,
        }
    }
    pub fn with_block(mut self, block: BlockEnv) -> Self {
        self.block = block;
        self
    }
    pub fn with_tx(mut self, tx: TxEnv) -> Self {
        self.tx = tx;
        self
    }
    pub fn with_cfg(mut self, cfg: CfgEnv) -> Self {
        self.cfg = cfg;
        self
    }
}
pub trait MainBuilder: Sized {
    fn build_mainnet(self) -> MainnetEvm<Self, ()>;
    fn build_mainnet_with_inspector<I>(self, inspector: I) -> MainnetEvm<Self, I>;
}
impl<DB: Database> MainBuilder for Context<DB> {
    fn build_mainnet(self) -> MainnetEvm<Self, ()> {
        MainnetEvm { ctx: self, inspector: () }
    }
    fn build_mainnet_with_inspector<I>(self, inspector: I) -> MainnetEvm<Self, I> {
        MainnetEvm { ctx: self, inspector }
    }
}
pub struct MainnetEvm<CTX, I = ()> {
    pub ctx: CTX,
    pub inspector: I,
}
impl<CTX, I> Deref for MainnetEvm<CTX, I> {
    type Target = CTX;
    fn deref(&self) -> &CTX {
        &self.ctx
    }
}
impl<CTX, I> DerefMut for MainnetEvm<CTX, I> {
    fn deref_mut(&mut self) -> &mut CTX {
        &mut self.ctx
    }
}
impl<CTX, I> MainnetEvm<CTX, I> {
    pub fn with_inspector<J>(self, inspector: J) -> MainnetEvm<CTX, J> {
        MainnetEvm { ctx: self.ctx, inspector }
    }
}
pub trait ExecuteEvm {
    type Error;
    fn replay(&mut self) -> Result<ResultAndState, Self::Error>;
}
pub trait InspectEvm: ExecuteEvm {
    fn inspect_replay(&mut self) -> Result<ResultAndState, Self::Error>;
}
impl<DB: Database, I> ExecuteEvm for MainnetEvm<Context<DB>, I> {
    type Error = EVMError<DB::Error>;
    fn replay(&mut self) -> Result<ResultAndState, Self::Error> {
        run(&mut self.ctx, None)
    }
}
impl<DB: Database> InspectEvm for MainnetEvm<Context<DB>, TracerEip3155> {
    fn inspect_replay(&mut self) -> Result<ResultAndState, Self::Error> {
        let mut lines = vec![];
        let r = run(&mut self.ctx, Some(&mut lines));
        for l in lines {
            let _ = writeln!(self.inspector.out, "{l}");
        }
        let _ = self.inspector.out.flush();
        r
    }
}
/// Writes one line for every operation, and a last one for the whole transaction.
pub struct TracerEip3155 {
    out: Box<dyn Write>,
}
impl TracerEip3155 {
    pub fn new(out: Box<dyn Write>) -> Self {
        Self { out }
    }
}

struct Run<'a, DB: Database> {
    db: &'a mut DB,
    state: EvmState,
}
type R<T, DB> = Result<T, EVMError<<DB as Database>::Error>>;
impl<DB: Database> Run<'_, DB> {
    fn acc(&mut self, a: Address) -> R<&mut Account, DB> {
        if !self.state.contains_key(&a) {
            let info = self.db.basic(a).map_err(EVMError::Database)?;
            let loaded_as_not_existing = info.is_none();
            self.state.insert(
                a,
                Account { info: info.unwrap_or_default(), loaded_as_not_existing, ..Default::default() },
            );
        }
        Ok(self.state.get_mut(&a).unwrap())
    }
    fn touch(&mut self, a: Address) -> R<&mut Account, DB> {
        let x = self.acc(a)?;
        x.touched = true;
        Ok(x)
    }
    fn load(&mut self, a: Address, k: U256) -> R<U256, DB> {
        let x = self.acc(a)?;
        if let Some(s) = x.storage.get(&k) {
            return Ok(s.present_value);
        }
        let v = if x.created { U256::ZERO } else { self.db.storage(a, k).map_err(EVMError::Database)? };
        self.acc(a)?.storage.insert(k, EvmStorageSlot { original_value: v, present_value: v });
        Ok(v)
    }
    fn store(&mut self, a: Address, k: U256, v: U256) -> R<(), DB> {
        self.load(a, k)?;
        self.touch(a)?.storage.get_mut(&k).unwrap().present_value = v;
        Ok(())
    }
    fn code(&mut self, i: &AccountInfo) -> R<Bytes, DB> {
        if i.is_empty_code_hash() {
            return Ok(Bytes::new());
        }
        match &i.code {
            Some(c) => Ok(c.original_bytes()),
            None => Ok(self.db.code_by_hash(i.code_hash).map_err(EVMError::Database)?.original_bytes()),
        }
    }
    fn send(&mut self, from: Address, to: Address, value: U256) -> R<bool, DB> {
        if self.acc(from)?.info.balance < value {
            return Ok(false);
        }
        self.touch(from)?.info.balance -= value;
        self.touch(to)?.info.balance += value;
        Ok(true)
    }
}
fn tx_err<T, E>(s: impl Into<String>) -> Result<T, EVMError<E>> {
    Err(EVMError::Transaction(s.into()))
}
fn run<DB: Database>(ctx: &mut Context<DB>, mut lines: Option<&mut Vec<String>>) -> R<ResultAndState, DB> {
    let (block, tx, spec) = (ctx.block.clone(), ctx.tx.clone(), ctx.cfg.spec);
    let london = spec.is_enabled_in(SpecId::LONDON);
    let mut r = Run { db: &mut ctx.database, state: HashMap::new() };
    // Validation.
    if let Some(id) = tx.chain_id {
        if id != ctx.cfg.chain_id {
            return tx_err("invalid chain id");
        }
    }
    let needed = match tx.tx_type {
        0 => SpecId::FRONTIER,
        1 => SpecId::BERLIN,
        2 => SpecId::LONDON,
        3 => SpecId::CANCUN,
        4 => SpecId::PRAGUE,
        _ => return tx_err("unknown transaction type"),
    };
    if !spec.is_enabled_in(needed) {
        return tx_err(format!("transaction type {} is not supported", tx.tx_type));
    }
    if spec.is_enabled_in(SpecId::MERGE) && block.prevrandao.is_none() {
        return Err(EVMError::Header("prevrandao is not set".into()));
    }
    if spec.is_enabled_in(SpecId::CANCUN) && block.blob_excess_gas_and_price.is_none() {
        return Err(EVMError::Header("excess blob gas is not set".into()));
    }
    if tx.gas_limit > block.gas_limit {
        return tx_err("caller gas limit exceeds the block gas limit");
    }
    if let Some(p) = tx.gas_priority_fee {
        if p > tx.gas_price {
            return tx_err("priority fee is greater than max fee");
        }
    }
    let basefee = if london { block.basefee as u128 } else { 0 };
    if tx.gas_price < basefee {
        return tx_err("gas price is less than basefee");
    }
    let price = match tx.gas_priority_fee {
        Some(p) => tx.gas_price.min(basefee + p),
        None => tx.gas_price,
    };
    let blob_price = block.blob_excess_gas_and_price.map(|b| b.blob_gasprice).unwrap_or(0);
    let blob_gas = tx.blob_hashes.len() as u128 * ops::BLOB_GAS as u128;
    if tx.tx_type == 3 {
        if tx.blob_hashes.is_empty() {
            return tx_err("empty blobs");
        }
        if tx.max_fee_per_blob_gas < blob_price {
            return tx_err("blob gas price is greater than max fee per blob gas");
        }
    }
    let mut gas = ops::BASE_GAS;
    let creates = matches!(tx.kind, TxKind::Create);
    if creates && spec.is_enabled_in(SpecId::HOMESTEAD) {
        gas += ops::CREATE_GAS;
    }
    if tx.gas_limit < gas {
        return tx_err("call gas cost exceeds the gas limit");
    }
    let caller = r.touch(tx.caller)?.info.clone();
    if caller.nonce != tx.nonce {
        return tx_err(format!("nonce {} should be {}", tx.nonce, caller.nonce));
    }
    if !caller.is_empty_code_hash() {
        return tx_err("reject transactions from senders with deployed code");
    }
    let most = U256::from(tx.gas_limit) * U256::from(tx.gas_price)
        + tx.value
        + U256::from(blob_gas) * U256::from(tx.max_fee_per_blob_gas);
    if caller.balance < most {
        return tx_err(format!("lack of funds ({}) for max fee ({most})", caller.balance));
    }
    // What stays whatever happens.
    {
        let c = r.touch(tx.caller)?;
        c.info.nonce += 1;
        c.info.balance -= U256::from(tx.gas_limit) * U256::from(price);
        c.info.balance -= U256::from(blob_gas) * U256::from(blob_price);
    }
    let before = r.state.clone();
    let mut data = &tx.data[..];
    let mut halted = None;
    let mut output = Bytes::new();
    let mut shown = vec![];
    let (this, program) = match tx.kind {
        TxKind::Create => {
            let a = tx.caller.create(tx.nonce);
            let x = r.touch(a)?;
            if x.info.nonce != 0 || !x.info.is_empty_code_hash() {
                halted = Some(Err(HaltReason::OpcodeNotFound));
            } else {
                x.created = true;
                x.storage.clear();
                x.info.nonce = spec.is_enabled_in(SpecId::SPURIOUS_DRAGON) as u64;
            }
            (a, true)
        }
        TxKind::Call(a) => {
            let i = r.touch(a)?.info.clone();
            let code = r.code(&i)?;
            (a, !code.is_empty())
        }
    };
    if halted.is_none() {
        r.send(tx.caller, this, tx.value)?;
        if program && this == BEACON_ROOTS {
            let slot = block.timestamp % ops::BEACON_SLOTS;
            r.store(this, U256::from(slot), U256::from(block.timestamp))?;
            let root = U256::from_be_slice(data.get(..32).unwrap_or(&[0; 32]));
            r.store(this, U256::from(slot + ops::BEACON_SLOTS), root)?;
        } else if program {
            halted = program_run(&mut r, &block, &tx, spec, price, blob_price, this, creates, &mut data, &mut gas, &mut shown, &mut lines)?;
            if halted.is_none() && creates {
                let code = Bytes::copy_from_slice(data);
                let x = r.touch(this)?;
                if !code.is_empty() && !x.selfdestructed {
                    x.info.code_hash = keccak256(&code);
                    x.info.code = Some(Bytecode::new_raw(code));
                }
            } else if halted.is_none() {
                shown.extend_from_slice(data);
                output = shown.into();
            }
        }
    }
    match &halted {
        Some(Ok(())) => {}
        Some(Err(_)) => gas = tx.gas_limit,
        None => {}
    }
    let gas = gas.min(tx.gas_limit);
    if halted.is_some() {
        r.state = before;
    }
    r.touch(tx.caller)?.info.balance += U256::from(tx.gas_limit - gas) * U256::from(price);
    let tip = U256::from(gas) * U256::from(price - basefee);
    r.touch(block.beneficiary)?.info.balance += tip;
    if let Some(l) = lines.as_mut() {
        l.push(format!("{{\"pass\":{},\"gasUsed\":\"{gas:#x}\"}}", halted.is_none()));
    }
    let result = match halted {
        None => ExecutionResult::Success {
            reason: SuccessReason::Stop,
            gas_used: gas,
            gas_refunded: 0,
            output: if creates { Output::Create(output, Some(this)) } else { Output::Call(output) },
        },
        Some(Ok(())) => ExecutionResult::Revert { gas_used: gas, output },
        Some(Err(reason)) => ExecutionResult::Halt { reason, gas_used: gas },
    };
    Ok(ResultAndState { result, state: r.state })
}
#[allow(clippy::too_many_arguments)]
fn program_run<DB: Database>(
    r: &mut Run<'_, DB>,
    block: &BlockEnv,
    tx: &TxEnv,
    spec: SpecId,
    price: u128,
    blob_price: u128,
    this: Address,
    creating: bool,
    data: &mut &[u8],
    gas: &mut u64,
    shown: &mut Vec<u8>,
    lines: &mut Option<&mut Vec<String>>,
) -> R<Option<Result<(), HaltReason>>, DB> {
    fn word(d: &mut &[u8]) -> Option<U256> {
        let (w, rest) = (d.get(..32)?, &d[32..]);
        *d = rest;
        Some(U256::from_be_slice(w))
    }
    fn addr(d: &mut &[u8]) -> Option<Address> {
        let (w, rest) = (d.get(..20)?, &d[20..]);
        *d = rest;
        Some(Address::from_slice(w))
    }
    macro_rules! need {
        ($e:expr) => {
            match $e {
                Some(v) => v,
                None => return Ok(Some(Err(HaltReason::OpcodeNotFound))),
            }
        };
    }
    while let Some((op, rest)) = data.split_first() {
        *data = rest;
        *gas += ops::GAS;
        if let Some(l) = lines.as_mut() {
            l.push(format!("{{\"op\":{op},\"gas\":\"{:#x}\"}}", tx.gas_limit.saturating_sub(*gas)));
        }
        if *gas > tx.gas_limit {
            return Ok(Some(Err(HaltReason::OutOfGas)));
        }
        match *op {
            ops::STORE => {
                let (k, v) = (need!(word(data)), need!(word(data)));
                r.store(this, k, v)?;
            }
            ops::DESTROY => {
                let to = need!(addr(data));
                let b = r.acc(this)?.info.balance;
                let gone = creating || !spec.is_enabled_in(SpecId::CANCUN);
                if to != this {
                    r.send(this, to, b)?;
                } else if gone {
                    r.touch(this)?.info.balance = U256::ZERO;
                }
                r.touch(to)?;
                if gone {
                    r.touch(this)?.selfdestructed = true;
                }
                return Ok(None);
            }
            ops::BLOCK_HASH => {
                let (k, n) = (need!(word(data)), need!(word(data)));
                let n: u64 = n.try_into().unwrap_or(u64::MAX);
                let h = if n < block.number && block.number - n <= 256 {
                    r.db.block_hash(n).map_err(EVMError::Database)?
                } else {
                    B256::ZERO
                };
                r.store(this, k, h.into())?;
            }
            ops::REVERT => return Ok(Some(Ok(()))),
            ops::FACT => {
                let (k, w) = (need!(word(data)), need!(word(data)));
                let a = |a: Address| U256::from_be_slice(a.as_slice());
                let v = match w.to::<u64>() % ops::FACTS as u64 {
                    0 => U256::from(block.number),
                    1 => U256::from(block.timestamp),
                    2 => U256::from(block.gas_limit),
                    3 => U256::from(block.basefee),
                    4 => block.difficulty,
                    5 => block.prevrandao.map(Into::into).unwrap_or(U256::MAX),
                    6 => U256::from(blob_price),
                    7 => a(block.beneficiary),
                    8 => a(tx.caller),
                    9 => U256::from(tx.nonce),
                    10 => U256::from(price),
                    11 => tx.value,
                    12 => U256::from(tx.chain_id.unwrap_or(0)),
                    13 => {
                        let mut all = vec![];
                        for i in &tx.access_list.0 {
                            all.extend_from_slice(i.address.as_slice());
                            for k in &i.storage_keys {
                                all.extend_from_slice(k.as_slice());
                            }
                        }
                        keccak256(all).into()
                    }
                    14 => {
                        let all: Vec<u8> = tx.blob_hashes.iter().flat_map(|h| h.0).collect();
                        keccak256(all).into()
                    }
                    _ => U256::from(tx.gas_limit) << 8 | U256::from(tx.tx_type) | U256::from(spec as u8) << 128,
                };
                r.store(this, k, v)?;
            }
            ops::COPY => {
                let (k, o) = (need!(word(data)), need!(word(data)));
                let v = r.load(this, o)?;
                r.store(this, k, v.wrapping_add(U256::from(1)))?;
            }
            ops::BALANCE => {
                let (k, a) = (need!(word(data)), need!(addr(data)));
                let b = r.acc(a)?.info.balance;
                r.store(this, k, b)?;
            }
            ops::CODE => {
                let (k, a) = (need!(word(data)), need!(addr(data)));
                let i = r.acc(a)?.info.clone();
                let h = if i.is_empty() {
                    B256::ZERO
                } else {
                    match &r.code(&i)? {
                        c if c.is_empty() => KECCAK_EMPTY,
                        c => keccak256(c),
                    }
                };
                r.store(this, k, h.into())?;
            }
            ops::SEND => {
                let (a, v) = (need!(addr(data)), need!(word(data)));
                r.send(this, a, v)?;
            }
            ops::END => return Ok(None),
            ops::SHOW => {
                let k = need!(word(data));
                let v = r.load(this, k)?;
                shown.extend_from_slice(&v.to_be_bytes::<32>());
            }
            _ => return Ok(Some(Err(HaltReason::OpcodeNotFound))),
        }
    }
    Ok(None)
}
