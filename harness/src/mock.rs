//! The environment of the code under test: a seal protocol and a ledger whose every answer is a
//! symbolic variable, constrained only by being a function of its arguments and (for the ledger)
//! by faithfully reflecting what was applied to it.

use core::cmp::Ordering;
use core::error::Error;
use core::fmt;
use core::hash::{Hash, Hasher};

use amplify::confinement::SmallOrdMap;
use rgbcore::{ContractApi, RgbSeal, RgbSealDef};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{
    fe256, AuthToken, CellAddr, CellLock, Codex, ContractId, Input, LibRepo, Memory, Operation, Opid, StateCell, StateValue,
    VerifiedOperation,
};

use crate::sym::*;

/// Witness-relative (`rel`) or absolute seal definition. `tag` is a ghost: it names the place of
/// the definition in the consignment and takes no part in equality.
#[derive(Clone, Copy, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[derive(serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Mock")]
pub struct MDef {
    pub id: u64,
    pub rel: bool,
    pub tag: u8,
}
/// A resolved seal: `w` is the id of the witness a relative definition was resolved with.
#[derive(Clone, Copy, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Mock")]
pub struct MSeal {
    pub id: u64,
    pub w: u64,
    pub rel: bool,
}

impl PartialEq for MDef {
    fn eq(&self, o: &Self) -> bool { (self.id == o.id) & (self.rel == o.rel) }
}
impl Eq for MDef {}
impl PartialEq for MSeal {
    fn eq(&self, o: &Self) -> bool { (self.id == o.id) & (self.rel == o.rel) & (self.w == o.w) }
}
impl Eq for MSeal {}
impl PartialOrd for MSeal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for MSeal {
    fn cmp(&self, o: &Self) -> Ordering { (self.rel, self.id, self.w).cmp(&(o.rel, o.id, o.w)) }
}
impl fmt::Debug for MDef {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("def") }
}
impl fmt::Display for MDef {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(DEF_NAMES[(self.tag as usize) % DEF_NAMES.len()])
    }
}
pub const DEF_NAMES: [&str; 16] =
    ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "da", "db", "dc", "dd", "de", "df"];
impl fmt::Debug for MSeal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("seal") }
}
impl fmt::Display for MSeal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("seal") }
}

impl RgbSealDef for MDef {
    type Src = MSeal;
    fn auth_token(&self) -> AuthToken { token(self.id, self.rel) }
    fn resolve(&self, wid: MWid) -> MSeal { resolve(*self, wid.0) }
    fn to_src(&self) -> Option<MSeal> {
        if self.rel {
            None
        } else {
            Some(MSeal { id: self.id, w: 0, rel: false })
        }
    }
}
/// The commitment of the mock protocol: injective in (id, rel).
pub fn token(id: u64, rel: bool) -> AuthToken {
    // both ends of a token matter
    let mut b = [0u8; 30];
    let id = id.to_be_bytes();
    b[..4].copy_from_slice(&id[4..]);
    b[25..29].copy_from_slice(&id[..4]);
    b[29] = rel as u8;
    AuthToken::from_byte_array(b)
}
pub fn resolve(d: MDef, w: u64) -> MSeal {
    // branch-free so that it never forks
    MSeal { id: d.id, w: w & (0u64.wrapping_sub(d.rel as u64)), rel: d.rel }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MWid(pub u64);
impl fmt::Debug for MWid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("wid") }
}
impl fmt::Display for MWid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("wid") }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct MMsg(pub [u8; 32]);
impl From<[u8; 32]> for MMsg {
    fn from(v: [u8; 32]) -> Self { MMsg(v) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[derive(serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Mock")]
pub struct MPub {
    pub id: u64,
    pub serial: u32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[derive(serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Mock")]
pub struct MCli {
    pub serial: u32,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct MErr(pub u32);
impl fmt::Debug for MErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("merr") }
}
impl fmt::Display for MErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("merr") }
}
impl Error for MErr {}

impl SingleUseSeal for MSeal {
    type Message = MMsg;
    type PubWitness = MPub;
    type CliWitness = MCli;
    fn is_included(&self, message: MMsg, witness: &SealWitness<Self>) -> bool {
        verdict(Query::Included(witness.published.serial, witness.client.serial, *self, message))
    }
}
impl ClientSideWitness for MCli {
    type Seal = MSeal;
    type Proof = (u32, MMsg);
    type Error = MErr;
    fn convolve_commit(&self, msg: MMsg) -> Result<(u32, MMsg), MErr> {
        if verdict(Query::Convolve(self.serial, msg)) {
            Ok((self.serial, msg))
        } else {
            Err(MErr(1000 + self.serial))
        }
    }
    fn merge(&mut self, _other: Self) -> Result<(), impl Error> { Ok::<_, MErr>(()) }
}
impl PublishedWitness<MSeal> for MPub {
    type PubId = MWid;
    type Error = MErr;
    fn pub_id(&self) -> MWid { MWid(self.id) }
    fn verify_commitment(&self, proof: (u32, MMsg)) -> Result<(), MErr> {
        if verdict(Query::Published(self.serial, proof.0, proof.1)) {
            Ok(())
        } else {
            Err(MErr(2000 + self.serial))
        }
    }
}
impl RgbSeal for MSeal {
    type Definition = MDef;
    type Published = MPub;
    type Client = MCli;
    type WitnessId = MWid;
}
impl Hash for MSeal {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.id) }
}

/// Number of a published witness that closes nothing.
pub const FAIL: u32 = 0xFFFF;
/// The questions the seal protocol answers.
#[derive(Clone, Copy, PartialEq)]
pub enum Query {
    Included(u32, u32, MSeal, MMsg),
    Convolve(u32, MMsg),
    Published(u32, u32, MMsg),
}

/// One block handed to the code under test.
#[derive(Clone)]
pub struct Block {
    /// as it stands in the consignment
    pub op: Operation,
    /// with the ledger's contract id in place of the codex id, when it is the first block
    pub eff: Operation,
    pub opid: Opid,
    pub first: bool,
    pub defs: Vec<(u16, MDef)>,
    pub wit: Option<MPub>,
    pub cli: u32,
    /// positions and cells are concrete
    pub concrete: bool,
}
#[derive(Clone)]
pub enum Item {
    End,
    Broken(u32),
    Block(Block),
}

pub enum Ev {
    Op(Opid, VerifiedOperation),
    Seals(Opid, SmallOrdMap<u16, MDef>),
    Witness(Opid, SealWitness<MSeal>),
}

pub struct World {
    pub cid: ContractId,
    pub codex_id: [u8; 32],
    pub items: Vec<Item>,
    pub replay_at: Option<usize>,
    /// the reader fails here
    pub cut: Option<usize>,
    pub verdicts: Vec<(Query, bool)>,
    pub honest: bool,
    pub fault: (usize, usize),
    pub known: u8,
    pub mem: u8,
    /// what is in cells matters: unseen ones have any state and lock
    pub cells: bool,
    pub cellv: Vec<(CellAddr, StateCell)>,
    /// scripts which pass, which fail, which want the secret
    pub libs: [LibId; 3],
    pub known0: Vec<(Opid, bool)>,
    pub cells0: Vec<(CellAddr, bool)>,
    pub imm0: Vec<(CellAddr, bool)>,
    pub ev: Vec<Ev>,
    /// operations applied to the ledger, in order
    pub applied: Vec<Operation>,
    pub applied_ids: Vec<Opid>,
    /// blocks of the consignment processed before this one, and what it applied
    pub prior: Vec<Item>,
    pub prior_applied: Vec<Operation>,
    pub prior_ids: Vec<Opid>,
}

static mut WORLD: *mut World = core::ptr::null_mut();
pub fn set_world(w: World) { unsafe { WORLD = Box::into_raw(Box::new(w)) } }
pub fn world() -> &'static mut World { unsafe { &mut *WORLD } }

pub fn verdict(q: Query) -> bool {
    let w = world();
    if w.honest {
        return match q {
            Query::Included(p, ..) => p != FAIL,
            _ => true,
        };
    }
    for (k, v) in &w.verdicts {
        if *k == q {
            return *v;
        }
    }
    let v = any_bool(match q {
        Query::Included(..) => "verdict.included",
        Query::Convolve(..) => "verdict.convolve",
        Query::Published(..) => "verdict.published",
    });
    w.verdicts.push((q, v));
    v
}

pub const FREE: u8 = 0;
pub const YES: u8 = 1;
pub const NO: u8 = 2;

/// Was the operation known to the ledger before the consignment was processed?
pub fn known0(opid: Opid) -> bool {
    let w = world();
    if w.known != FREE {
        return w.known == YES;
    }
    for (k, v) in &w.known0 {
        if *k == opid {
            return *v;
        }
    }
    let v = any_bool("ledger.known");
    w.known0.push((opid, v));
    v
}
/// Did the ledger memory contain the destructible cell before the consignment was processed?
pub fn cell0(addr: CellAddr) -> bool {
    let w = world();
    if w.mem != FREE {
        return w.mem == YES;
    }
    for (k, v) in &w.cells0 {
        if *k == addr {
            return *v;
        }
    }
    let v = any_bool("ledger.cell");
    w.cells0.push((addr, v));
    v
}
pub fn imm0(addr: CellAddr) -> bool {
    let w = world();
    if w.mem != FREE {
        return w.mem == YES;
    }
    for (k, v) in &w.imm0 {
        if *k == addr {
            return *v;
        }
    }
    let v = any_bool("ledger.immutable");
    w.imm0.push((addr, v));
    v
}

/// Presence of a destructible cell given the operations applied so far.
pub fn cell_present(applied: &[Operation], ids: &[Opid], addr: CellAddr) -> bool {
    for op in applied {
        for i in &op.destructible_in {
            if i.addr == addr {
                return false;
            }
        }
    }
    for (op, id) in applied.iter().zip(ids) {
        if *id == addr.opid && (addr.pos as usize) < op.destructible_out.len() {
            return true;
        }
    }
    cell0(addr)
}
pub fn imm_present(applied: &[Operation], ids: &[Opid], addr: CellAddr) -> bool {
    for (op, id) in applied.iter().zip(ids) {
        if *id == addr.opid && (addr.pos as usize) < op.immutable_out.len() {
            return true;
        }
    }
    imm0(addr)
}

/// Secret the locks of kind 4 want.
pub const SECRET: u8 = 48;
/// 0 none, 1 no script, 2 passes, 3 fails, 4 wants the secret from the spending input, 5 the script is not there
pub fn lock(kind: u8) -> Option<CellLock> {
    let l = world().libs;
    match kind {
        0 => None,
        1 => Some(CellLock { aux: StateValue::Single { first: fe256::from(SECRET) }, script: None }),
        2 => Some(CellLock::with_script(l[0], 0)),
        3 => Some(CellLock::with_script(l[1], 0)),
        4 => Some(CellLock::with_script(l[2], 0)),
        _ => Some(CellLock::with_script(LibId::from([0xEE; 32]), 0)),
    }
}
/// Does the lock let the input spend the cell?
pub fn unlocked(input: &Input, cell: &StateCell) -> bool {
    let l = world().libs;
    match cell.lock.and_then(|l| l.script) {
        None => true,
        Some(site) if site.lib_id == l[0] => true,
        Some(site) if site.lib_id == l[2] => match input.witness {
            StateValue::Single { first } => first == fe256::from(SECRET),
            _ => false,
        },
        Some(_) => false,
    }
}
/// A field element (below 2^248).
pub fn any_field(n: &str) -> fe256 {
    let mut b = [0u8; 32];
    b[..31].copy_from_slice(&any::<31>(n));
    fe256::from(b)
}
/// What is in the cell, if it is there.
pub fn cell_of(addr: CellAddr) -> StateCell {
    let w = world();
    let plain = StateCell { data: StateValue::None, auth: token(0, false), lock: None };
    if !w.cells {
        return plain;
    }
    for it in &w.items {
        if let Item::Block(b) = it {
            if b.opid == addr.opid {
                if let Some(cell) = b.eff.destructible_out.get(addr.pos as usize) {
                    return *cell;
                }
            }
        }
    }
    for (k, v) in &w.cellv {
        if *k == addr {
            return *v;
        }
    }
    let kind = [0, 3, 4][choose(3, "ledger.lock")];
    let data = StateValue::Single { first: any_field("ledger.data") };
    let v = StateCell { data, auth: token(0, false), lock: lock(kind) };
    w.cellv.push((addr, v));
    v
}

pub struct Ledger {
    pub codex: Codex,
    pub libs: Vec<(LibId, Lib)>,
}
impl Memory for Ledger {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        let w = world();
        if cell_present(&w.applied, &w.applied_ids, addr) {
            Some(cell_of(addr))
        } else {
            None
        }
    }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> {
        let w = world();
        if imm_present(&w.applied, &w.applied_ids, addr) {
            Some(StateValue::None)
        } else {
            None
        }
    }
}
impl LibRepo for Ledger {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> {
        for (id, lib) in &self.libs {
            if *id == lib_id {
                return Some(lib);
            }
        }
        None
    }
}
impl ContractApi<MSeal> for Ledger {
    fn contract_id(&self) -> ContractId { world().cid }
    fn codex(&self) -> &Codex { &self.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool {
        let w = world();
        for id in &w.applied_ids {
            if *id == opid {
                return true;
            }
        }
        known0(opid)
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let w = world();
        w.applied.push(op.as_operation().clone());
        w.applied_ids.push(op.opid());
        w.ev.push(Ev::Op(op.opid(), op));
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, MDef>) { world().ev.push(Ev::Seals(opid, seals)); }
    fn apply_witness(&mut self, opid: Opid, witness: SealWitness<MSeal>) { world().ev.push(Ev::Witness(opid, witness)); }
}
