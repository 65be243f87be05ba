//! Symbolic consignments, the run of the real verification over them, and the oracle: a
//! specification of what each accepted and each rejected consignment must look like.

use core::error::Error;
use core::fmt;
use std::collections::BTreeSet;

use amplify::confinement::{SmallOrdMap, SmallVec, TinyOrdMap};
use amplify::{default, none, ByteArray};
use rgbcore::{ContractVerify, OperationSeals, ReadOperation, VerificationError};
use single_use_seals::{SealError, SealWitness};
use ultrasonic::aluvm::alu::{aluasm, CoreConfig, Lib, LibSite};
use ultrasonic::aluvm::FIELD_ORDER_SECP;
use ultrasonic::{
    fe256, uasm, AuthToken, CallError, CellAddr, Codex, ContractId, Identity, Input, Operation, Opid, StateCell, StateData,
    StateValue,
};

use crate::mock::*;
use crate::sym::*;

#[derive(Clone, Copy)]
pub enum Defs {
    /// no seal definition is reported
    None,
    /// between `.0` and `.1` definitions, with symbolic position and symbolic content
    Sym(usize, usize),
    /// none, a right one or wrong ones, all concrete
    Wrong,
    /// for each output cell, its own definition or nothing
    Exact,
    /// for each output cell, its own definition
    All,
}

/// What the consignment may look like at one position; every alternative is explored.
#[derive(Clone, Copy)]
pub struct BCfg {
    pub end: bool,
    pub broken: bool,
    /// contract id in the operation: 0 ledger's, 1 codex id, 2 a foreign one, 3 symbolic
    pub cids: &'static [u8],
    /// called method: 0 passes, 1 fails, 2 fails with code, 3 does not exist
    pub calls: &'static [u16],
    pub n_in: (usize, usize),
    /// inputs are cells `0..in_pos` of any earlier operation ...
    pub in_pos: u16,
    /// ... or a cell of an operation nobody has seen
    pub in_unknown: bool,
    pub n_imm: (usize, usize),
    /// alternatives for the destructible outputs, as indexes of `TOKENS`
    pub outs: &'static [&'static [u8]],
    pub defs: Defs,
    pub wit: &'static [bool],
    /// may repeat an earlier operation, with other definitions and witness
    pub resend: bool,
    /// fields nobody but the virtual machine looks at: symbolic
    pub fields: bool,
    /// alternatives for the lock of each output, see `lock`
    pub locks: &'static [u8],
    /// outputs hold any state; inputs come with nothing or with anything as witness
    pub state: bool,
}
pub struct Cfg {
    pub blocks: &'static [BCfg],
    /// in place of `blocks`
    pub special: Option<fn(usize) -> Item>,
    pub honest: bool,
    pub known: u8,
    pub mem: u8,
    pub cells: bool,
    pub twice: bool,
    pub text: bool,
    /// interrupted, then read in full; against read in full at once
    pub resume: bool,
    /// a second consignment for the same ledger
    pub then: &'static [BCfg],
}

pub const TOKENS: [(u64, bool); 4] = [(1, false), (2, false), (1, true), (2, true)];
pub const CID: [u8; 32] = [0xC1; 32];
pub const OTHER: [u8; 32] = [0x0F; 32];

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct RErr(pub u32);
impl fmt::Debug for RErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("broken stream") }
}
impl fmt::Display for RErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("broken stream") }
}
impl Error for RErr {}

pub struct Reader(pub &'static Cfg);
impl ReadOperation for Reader {
    type Seal = MSeal;
    fn read_operation(&mut self) -> Result<Option<OperationSeals<MSeal>>, impl Error + 'static> {
        let w = world();
        let item = match w.replay_at {
            Some(n) => {
                w.replay_at = Some(n + 1);
                if n < w.items.len() {
                    w.items[n].clone()
                } else if self.0.resume {
                    let item = generate(self.0, n);
                    w.items.push(item.clone());
                    item
                } else {
                    Item::End
                }
            }
            None if w.cut == Some(w.items.len()) => return Err(RErr(0)),
            None => {
                let item = generate(self.0, w.items.len());
                w.items.push(item.clone());
                item
            }
        };
        match item {
            Item::End => Ok(None),
            Item::Broken(c) => Err(RErr(c)),
            Item::Block(b) => {
                let mut defs = SmallOrdMap::new();
                for (p, d) in &b.defs {
                    let _ = defs.insert(*p, *d);
                }
                let cli = b.cli;
                Ok(Some(OperationSeals {
                    operation: b.op,
                    defined_seals: defs,
                    witness: b.wit.map(|p| SealWitness::new(p, MCli { serial: cli })),
                }))
            }
        }
    }
}

fn range(r: (usize, usize), name: &str) -> usize { r.0 + choose(r.1 - r.0 + 1, name) }

fn generate(cfg: &'static Cfg, i: usize) -> Item {
    if let Some(f) = cfg.special {
        return f(i);
    }
    let w = world();
    let second = !w.prior.is_empty();
    let blocks = if second { cfg.then } else { cfg.blocks };
    if i >= blocks.len() {
        return Item::End;
    }
    let c = &blocks[i];
    let mut kinds = [2usize; 3];
    let mut n = 1;
    if c.end {
        kinds[n] = 0;
        n += 1;
    }
    if c.broken {
        kinds[n] = 1;
        n += 1;
    }
    match kinds[choose(n, "block.kind")] {
        0 => return Item::End,
        1 => return Item::Broken(any_u32("reader.error")),
        _ => {}
    }
    let first = i == 0;
    // numbers for the things of this block
    let serial = i + if second { 8 } else { 0 };
    let mut old: Vec<&Block> = vec![];
    for it in w.prior.iter().chain(&w.items) {
        if let Item::Block(b) = it {
            // a first block is to be repeated as the first
            if !(second && first) || b.first {
                old.push(b);
            }
        }
    }
    let mut op = if c.resend && !old.is_empty() && any_bool_forked("block.resend") {
        let b = old[choose(old.len(), "block.resend.which")];
        if first { b.op.clone() } else { b.eff.clone() }
    } else {
        let mut op = blank(serial as u8);
        op.contract_id = match c.cids[choose(c.cids.len(), "op.contract.kind")] {
            0 => ContractId::from_byte_array(CID),
            1 => ContractId::from_byte_array(w.codex_id),
            2 => ContractId::from_byte_array(OTHER),
            _ => ContractId::from_byte_array(any::<32>("op.contract")),
        };
        op.call_id = c.calls[choose(c.calls.len(), "op.call")];
        let mut addrs: Vec<CellAddr> = vec![];
        for it in &w.items {
            if let Item::Block(b) = it {
                for p in 0..c.in_pos {
                    let a = CellAddr::new(b.opid, p);
                    if !addrs.contains(&a) {
                        addrs.push(a);
                    }
                }
            }
        }
        if c.in_unknown && second {
            for it in &w.prior {
                if let Item::Block(b) = it {
                    let a = CellAddr::new(b.opid, 0);
                    if !addrs.contains(&a) {
                        addrs.push(a);
                    }
                }
            }
        } else if c.in_unknown {
            addrs.push(CellAddr::new(Opid::from_byte_array([0x77; 32]), 0));
        }
        if !addrs.is_empty() {
            for _ in 0..range(c.n_in, "op.inputs") {
                let a = addrs[choose(addrs.len(), "op.input")];
                let mut witness = StateValue::None;
                if c.state && any_bool_forked("op.input.witness") {
                    witness = StateValue::Single { first: any_field("input.witness") };
                }
                let _ = op.destructible_in.push(Input { addr: a, witness });
            }
        }
        for k in 0..range(c.n_imm, "op.reads") {
            // a global cell of an operation nobody has seen, or of the one before
            let mut from = Opid::from_byte_array([0x66; 32]);
            if i > 0 && any_bool_forked("op.reads.previous") {
                from = block(i - 1).opid;
            }
            let _ = op.immutable_in.push(CellAddr::new(from, k as u16));
        }
        for t in c.outs[choose(c.outs.len(), "op.outputs")] {
            let (id, rel) = TOKENS[*t as usize];
            let mut cell = StateCell { data: StateValue::None, auth: token(id, rel), lock: None };
            if c.state {
                cell.data = StateValue::Single { first: any_field("cell.data") };
            }
            cell.lock = lock(c.locks[choose(c.locks.len(), "cell.lock")]);
            let _ = op.destructible_out.push(cell);
        }
        if c.fields {
            op.call_id = any_u16("op.call");
            op.nonce = any_field("op.nonce");
            let extra = choose(3, "op.extra");
            if extra == 1 {
                op.witness = StateValue::Single { first: any_field("op.witness") };
            }
            for cell in op.destructible_out.iter_mut() {
                cell.data = StateValue::Single { first: any_field("cell.data") };
            }
            if extra == 2 {
                let value = StateValue::Single { first: any_field("global.data") };
                let _ = op.immutable_out.push(StateData { value, raw: None });
            }
        } else {
            let _ = op.immutable_out.push(StateData::new(0u64, 7u64));
        }
        op
    };
    let mut defs: Vec<(u16, MDef)> = vec![];
    match c.defs {
        Defs::None => {}
        Defs::Sym(lo, hi) => {
            let n = range((lo, hi), "defs");
            for k in 0..n {
                let p = any_u16("def.pos");
                let d = MDef { id: any_u64("def.id"), rel: any_bool("def.relative"), tag: (serial * 4 + k) as u8 };
                // positions are map keys: increasing without loss of generality
                if let Some((q, _)) = defs.last() {
                    assume(*q < p);
                }
                defs.push((p, d));
            }
        }
        Defs::Wrong => {
            let alt = choose(4, "defs.wrong");
            let t = (serial * 4) as u8;
            if alt == 1 {
                defs.push((0, MDef { id: 1, rel: false, tag: t }));
            }
            if alt == 2 {
                defs.push((0, MDef { id: 2, rel: false, tag: t }));
            }
            if alt == 3 {
                defs.push((1, MDef { id: 1, rel: false, tag: t }));
                defs.push((258, MDef { id: 3, rel: true, tag: t + 1 }));
            }
        }
        Defs::Exact | Defs::All => {
            for (k, cell) in op.destructible_out.iter().enumerate() {
                if matches!(c.defs, Defs::All) || any_bool_forked("def.disclosed") {
                    for (id, rel) in TOKENS {
                        if token(id, rel) == cell.auth {
                            defs.push((k as u16, MDef { id, rel, tag: (serial * 4 + k) as u8 }));
                        }
                    }
                }
            }
        }
    }
    let wit = if c.wit[choose(c.wit.len(), "witness")] {
        Some(MPub { id: any_u64("witness.id"), serial: serial as u32 })
    } else {
        None
    };
    let op_as_read = op.clone();
    if first {
        op.contract_id = w.cid;
    }
    let opid = op.opid();
    Item::Block(Block { op: op_as_read, eff: op, opid, first, defs, wit, cli: serial as u32, concrete: false })
}

/// An own operation with the outputs, spending the cells.
fn operation(nonce: u64, outs: &[(u64, bool)], ins: &[CellAddr]) -> Operation {
    let mut op = blank(0);
    op.nonce = fe256::from(nonce);
    for (id, rel) in outs {
        let _ = op.destructible_out.push(StateCell { data: StateValue::None, auth: token(*id, *rel), lock: None });
    }
    for a in ins {
        let _ = op.destructible_in.push(Input { addr: *a, witness: StateValue::None });
    }
    op
}
fn make_block(i: usize, mut op: Operation, defs: Vec<(u16, MDef)>, wit: Option<MPub>) -> Block {
    let w = world();
    let first = i == 0;
    if first {
        op.contract_id = ContractId::from_byte_array(w.codex_id);
    }
    let op_as_read = op.clone();
    if first {
        op.contract_id = w.cid;
    }
    let opid = op.opid();
    Block { op: op_as_read, eff: op, opid, first, defs, wit, cli: i as u32, concrete: true }
}

/// Number of cells in a wide block: positions do not fit a byte.
const WIDE: usize = 260;
const EDGES: [usize; 5] = [0, 127, 255, 256, 259];
/// A wide first operation, one spending many of its cells, one spending some of the rest.
pub fn wide(i: usize) -> Item {
    let w = world();
    match i {
        0 | 1 if i == 0 || w.fault.0 < 3 || w.fault.0 == 5 => {
            let mut outs: Vec<(u64, bool)> = vec![];
            for k in 0..WIDE {
                outs.push((100 + k as u64, i == 1 && k % 2 == 1));
            }
            let mut ins = vec![];
            let mut at = WIDE;
            if i == 1 {
                let first = block(0).opid;
                // how many inputs; nothing else, an input twice, one that is not there; whose
                // definition is missing
                const CASES: [(usize, usize, usize); 13] = [
                    (0, 0, WIDE), (17, 0, WIDE), (256, 0, WIDE), (257, 0, WIDE), (WIDE, 0, WIDE), (17, 1, WIDE), (257, 2, WIDE),
                    (257, 3, WIDE), (WIDE, 3, WIDE), (17, 0, 255), (0, 0, 256), (1, 0, 0), (1, 0, 259),
                ];
                let case = match w.fault.0 {
                    0 => choose(CASES.len(), "case"),
                    5 => 1,
                    _ => 3,
                };
                w.fault.1 = case;
                w.fault.0 = if w.fault.0 == 5 { 1 } else { w.fault.0 };
                let (n, extra, missing) = CASES[case];
                at = missing;
                for k in 0..n {
                    ins.push(CellAddr::new(first, ((k * 7 + 255) % WIDE) as u16));
                }
                match extra {
                    0 => {}
                    1 => ins.push(ins[0]),
                    2 => ins.push(ins[n - 1]),
                    _ => ins.push(CellAddr::new(first, WIDE as u16)),
                }
            }
            let op = operation(i as u64, &outs, &ins);
            let mut defs: Vec<(u16, MDef)> = vec![];
            // one cell's definition: missing, another cell's, any; or only one, at any place; or exactly 256
            let damage = if i == 1 { 1 } else { choose(6, "damage") };
            if i == 0 {
                w.fault.0 = damage;
            }
            if damage == 4 {
                let p = [0, 4, 255, 256, 259, 260, 511, 515, 516, 0x8000, 0xffff][choose(11, "def.pos")];
                defs.push((p, MDef { id: [100 + p as u64, 99][choose(2, "def.id")], rel: false, tag: 1 }));
            } else {
                if damage == 3 {
                    at = 255;
                } else if i == 0 && damage != 0 && damage != 5 {
                    at = EDGES[choose(EDGES.len(), "damage.at")];
                }
                for (k, (id, rel)) in outs.iter().enumerate() {
                    let tag = k as u8;
                    if damage == 5 {
                        if k < 256 {
                            defs.push((k as u16, MDef { id: *id, rel: *rel, tag }));
                        }
                    } else if k != at {
                        defs.push((k as u16, MDef { id: *id, rel: *rel, tag }));
                    } else if damage == 2 {
                        defs.push((k as u16, MDef { id: outs[(k + 1) % WIDE].0, rel: *rel, tag }));
                    } else if damage == 3 {
                        defs.push((k as u16, MDef { id: [99, 100, 400][choose(3, "def.id")], rel: *rel, tag }));
                    }
                }
            }
            let wit = if i == 1 { Some(MPub { id: any_u64("witness.id"), serial: 1 }) } else { None };
            Item::Block(make_block(i, op, defs, wit))
        }
        2 if w.fault.0 < 3 => {
            let mut ins = vec![];
            // after an operation that spent none or one of the cells, any place
            let from = if w.fault.1 % 5 == 0 { choose(2, "from") } else { 0 };
            let opid = block(from).opid;
            ins.push(CellAddr::new(opid, EDGES[choose(EDGES.len(), "at")] as u16));
            let op = operation(2, &[], &ins);
            Item::Block(make_block(2, op, vec![], Some(MPub { id: any_u64("witness.id"), serial: 2 })))
        }
        _ => Item::End,
    }
}

/// A long chain, each operation spending the cell of the one before; something wrong somewhere.
const LONG: usize = 262;
pub fn long(i: usize) -> Item {
    let w = world();
    if i == 0 {
        w.fault = (choose(10, "fault"), [1, 2, 64, 127, 128, 129, 254, 255, 256, 257, 258, LONG - 1][choose(12, "fault.at")]);
    }
    let (fault, at) = w.fault;
    if i >= LONG {
        return Item::End;
    }
    let here = i == at;
    if here && fault == 1 {
        return Item::Broken(any_u32("reader.error"));
    }
    if here && fault == 2 {
        return Item::End;
    }
    let mut ins = vec![];
    if i > 0 {
        // the cell of the block before; or one that was spent long ago
        let from = if here && fault == 3 { block(if i > 1 { i - 2 } else { 0 }).opid } else { block(i - 1).opid };
        ins.push(CellAddr::new(from, if here && fault == 3 && i == 1 { 1 } else { 0 }));
    }
    // the first block's other cell, open since
    if here && fault == 9 {
        ins.push(CellAddr::new(block(0).opid, 1));
    }
    let rel = i > 0;
    let mut op = operation(i as u64, if i == 0 { &[(1, false), (7, false)] } else { &[(1, true)] }, &ins);
    if here && fault == 4 {
        op.call_id = 1;
    }
    if here && fault == 5 {
        op.contract_id = ContractId::from_byte_array(w.codex_id);
    }
    let mut defs = vec![(0, MDef { id: if here && fault == 6 { 2 } else { 1 }, rel, tag: i as u8 })];
    if i == 0 {
        defs.push((1, MDef { id: 7, rel, tag: 9 }));
    }
    let wit = if i == 0 || (here && fault == 7) {
        None
    } else {
        Some(MPub { id: if here { any_u64("witness.id") } else { 1000 + i as u64 }, serial: if here && fault == 8 { FAIL } else { i as u32 } })
    };
    Item::Block(make_block(i, op, defs, wit))
}
fn any_bool_forked(n: &str) -> bool { choose(2, n) == 1 }

fn blank(nonce: u8) -> Operation {
    Operation {
        version: default!(),
        contract_id: ContractId::from_byte_array(CID),
        call_id: 0,
        nonce: fe256::from(nonce),
        witness: StateValue::None,
        destructible_in: SmallVec::new(),
        immutable_in: SmallVec::new(),
        destructible_out: SmallVec::new(),
        immutable_out: SmallVec::new(),
    }
}

pub fn new_ledger() -> Ledger { ledger(false) }
pub fn ledger(cells: bool) -> Ledger {
    let ok = Lib::assemble(&aluasm! { stop; }).unwrap();
    let bad = Lib::assemble(&aluasm! { fail CK; chk CK; stop; }).unwrap();
    let (ok_id, bad_id) = (ok.lib_id(), bad.lib_id());
    let mut verifiers = TinyOrdMap::new();
    let _ = verifiers.insert(0u16, LibSite::new(ok_id, 0));
    let _ = verifiers.insert(1u16, LibSite::new(bad_id, 0));
    let mut libs = vec![(ok_id, ok), (bad_id, bad)];
    if cells {
        let secret = Lib::assemble(&uasm! {
            ldi     witness;
            put     E8, 2;
            put     E1, 48;
            eq      EA, E1;
            chk     CO;
            stop;
        })
        .unwrap();
        // the first output holds what the first input held
        let keep = Lib::assemble(&uasm! {
            ldi     destructible;
            chk     CO;
            mov     E1, EA;
            ldo     destructible;
            chk     CO;
            eq      EA, E1;
            chk     CO;
            stop;
        })
        .unwrap();
        let _ = verifiers.insert(2u16, LibSite::new(keep.lib_id(), 0));
        libs.push((secret.lib_id(), secret));
        libs.push((keep.lib_id(), keep));
    }
    let codex = Codex {
        name: amplify::confinement::TinyString::try_from("Sym".to_string()).unwrap(),
        developer: Identity::default(),
        version: default!(),
        features: default!(),
        timestamp: 1732529307,
        field_order: FIELD_ORDER_SECP,
        input_config: CoreConfig::default(),
        verification_config: CoreConfig::default(),
        verifiers,
    };
    Ledger { codex, libs }
}

pub fn run(cfg: &'static Cfg) {
    memo::<Operation>("10ultrasonic9operation9OperationNt");
    memo::<StateCell>("10ultrasonic5state9StateCellNt");
    memo::<StateData>("10ultrasonic5state9StateDataNt");
    memo::<Input>("10ultrasonic9operation5InputNt");
    memo::<CellAddr>("10ultrasonic9operation8CellAddrNt");
    memo_fn("13commit_verify6merkleNtB6_10MerkleHash4void");
    memo_fn("13commit_verify6merkleNtB6_10MerkleHash6single");
    memo_fn("13commit_verify6merkleNtB6_10MerkleHash8branches");
    memo::<Lib>("5aluvm7library3lib3LibNt");
    let mut ledger = ledger(cfg.cells);
    let lib = |k: usize| ledger.libs[if k < ledger.libs.len() { k } else { 0 }].0;
    let libs = [lib(0), lib(1), lib(2)];
    set_world(World {
        cid: ContractId::from_byte_array(CID),
        codex_id: ledger.codex.codex_id().to_byte_array(),
        items: vec![],
        replay_at: None,
        cut: None,
        verdicts: vec![],
        honest: cfg.honest,
        known: cfg.known,
        fault: (0, 0),
        mem: cfg.mem,
        cells: cfg.cells,
        cellv: vec![],
        libs,
        known0: vec![],
        cells0: vec![],
        imm0: vec![],
        ev: vec![],
        applied: vec![],
        applied_ids: vec![],
        prior: vec![],
        prior_applied: vec![],
        prior_ids: vec![],
    });
    if cfg.resume {
        return resume(cfg, &mut ledger);
    }
    let r = ledger.evaluate(Reader(cfg));
    check("P14|evaluation ends", true);
    judge(&r);
    if cfg.text {
        if let Err(e) = &r {
            text(e);
        }
    }
    if !cfg.then.is_empty() && world().items.iter().any(|x| matches!(x, Item::Block(_))) {
        let w = world();
        w.prior = core::mem::take(&mut w.items);
        w.ev.clear();
        if r.is_ok() && any_bool_forked("another.ledger") {
            cover("then-another");
            w.applied.clear();
            w.applied_ids.clear();
            w.known0.clear();
            w.mem = FREE;
        }
        w.prior_applied = w.applied.clone();
        w.prior_ids = w.applied_ids.clone();
        let r = ledger.evaluate(Reader(cfg));
        cover("then");
        if r.is_ok() {
            cover("then-ok");
        }
        judge(&r);
    }
    if cfg.twice && r.is_ok() {
        let w = world();
        let n = w.ev.len();
        w.replay_at = Some(0);
        let r2 = ledger.evaluate(Reader(cfg));
        cover("twice");
        check("P15|a consignment that was accepted is accepted again", r2.is_ok());
        let mut again = 0usize;
        for e in &w.ev[n..] {
            if let Ev::Op(..) = e {
                again += 1;
            }
        }
        check("P15|repeating an accepted consignment applies no operation", again == 0);
        let (mut a, mut b) = (vec![], vec![]);
        for (k, e) in w.ev.iter().enumerate() {
            match e {
                Ev::Op(..) => {}
                Ev::Seals(id, s) => if k < n { a.push((0, *id, s.len())) } else { b.push((0, *id, s.len())) },
                Ev::Witness(id, x) => {
                    let v = (1, *id, x.published.serial as usize);
                    if k < n { a.push(v) } else { b.push(v) }
                }
            }
        }
        check("P15|repeating an accepted consignment reports the same seals and witnesses", a == b);
    }
}

/// What the ledger received: operations; seals and witnesses.
fn received(ev: &[Ev]) -> (Vec<Opid>, Vec<(u8, Opid, usize)>) {
    let (mut ops, mut rest) = (vec![], vec![]);
    for e in ev {
        match e {
            Ev::Op(id, _) => ops.push(*id),
            Ev::Seals(id, s) => rest.push((0, *id, s.len())),
            Ev::Witness(id, x) => rest.push((1, *id, x.published.serial as usize)),
        }
    }
    (ops, rest)
}
fn kind(r: &Result<(), VerificationError<MSeal>>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(VerificationError::Stream(_)) => 1,
        Err(VerificationError::NoCodexCommitment) => 2,
        Err(VerificationError::NoWitness(_)) => 3,
        Err(VerificationError::SealsNotClosed(..)) => 4,
        Err(VerificationError::SealUnknown(_)) => 5,
        Err(VerificationError::SealsDefinitionMismatch { .. }) => 6,
        Err(VerificationError::Vm(_)) => 7,
    }
}
/// A ledger which received a part of the consignment first.
fn resume(cfg: &'static Cfg, ledger: &mut Ledger) {
    let w = world();
    w.cut = Some(1 + choose(cfg.blocks.len(), "cut"));
    let r1 = ledger.evaluate(Reader(cfg));
    if !matches!(r1, Err(VerificationError::Stream(_))) {
        // decided before the cut
        return;
    }
    w.replay_at = Some(0);
    let n1 = w.ev.len();
    let r2 = ledger.evaluate(Reader(cfg));
    let (n2, read) = (w.ev.len(), w.replay_at);
    // once more, from the beginning
    w.applied.clear();
    w.applied_ids.clear();
    w.replay_at = Some(0);
    let r3 = ledger.evaluate(Reader(cfg));
    cover("resumed");
    if n1 > 0 && r2.is_ok() {
        cover("resumed-ok");
    }
    if r2.is_err() {
        cover("resumed-err");
    }
    check("P27|a consignment read in part before is judged as if it had not been", kind(&r2) == kind(&r3));
    check("P27|it is decided at the same place", read == w.replay_at);
    let (mut ops, _) = received(&w.ev[..n1]);
    let (ops2, rest2) = received(&w.ev[n1..n2]);
    let (ops3, rest3) = received(&w.ev[n2..]);
    if !ops.is_empty() && !ops2.is_empty() {
        cover("resumed-rest");
    }
    ops.extend(ops2);
    check("P27|both times together, the same operations are applied in the same order", ops == ops3);
    check("P27|the same seals and witnesses are reported", rest2 == rest3);
}

/// A seal the consignment has defined and not closed yet.
struct Live {
    addr: CellAddr,
    seal: MSeal,
}

struct Sim {
    live: Vec<Live>,
    /// cells whose seal was defined relative to a witness in an operation without one
    dead: Vec<CellAddr>,
    applied: Vec<Operation>,
    applied_ids: Vec<Opid>,
    exp: Vec<Exp>,
}
enum Exp {
    Witness(usize),
    Op(usize),
    Seals(usize),
}

fn block(i: usize) -> &'static Block {
    match &world().items[i] {
        Item::Block(b) => b,
        _ => unreachable!(),
    }
}

impl Sim {
    /// (all definitions authorised by the cell at their position)
    fn c_defs(&self, b: &Block) -> bool {
        let mut ok = true;
        for (p, d) in &b.defs {
            let mut hit = false;
            if b.concrete {
                ok = ok & b.eff.destructible_out.get(*p as usize).is_some_and(|cell| cell.auth == token(d.id, d.rel));
                continue;
            }
            for (k, cell) in b.eff.destructible_out.iter().enumerate() {
                hit = hit | ((*p == k as u16) & (cell.auth == token(d.id, d.rel)));
            }
            ok = ok & hit;
        }
        ok
    }
    fn find(&self, taken: &[usize], a: CellAddr) -> Option<usize> {
        for (k, l) in self.live.iter().enumerate() {
            if l.addr.pos == a.pos && !taken.contains(&k) && l.addr.opid == a.opid {
                return Some(k);
            }
        }
        None
    }
    /// Indexes of the live seals closed by the block; `Err` is an input without one.
    fn closes(&self, b: &Block) -> (Vec<usize>, Vec<CellAddr>) {
        let (mut t, mut missing) = (vec![], vec![]);
        for i in &b.eff.destructible_in {
            match self.find(&t, i.addr) {
                Some(k) => t.push(k),
                None => missing.push(i.addr),
            }
        }
        (t, missing)
    }
    fn known(&self, b: &Block) -> bool {
        for id in &self.applied_ids {
            if *id == b.opid {
                return true;
            }
        }
        known0(b.opid)
    }
    fn vm_contract(&self, b: &Block) -> bool { b.eff.contract_id.to_byte_array() == CID }
    fn vm_inputs(&self, b: &Block) -> bool {
        let mut ok = true;
        for i in &b.eff.destructible_in {
            ok = ok & cell_present(&self.applied, &self.applied_ids, i.addr);
        }
        ok
    }
    fn vm_reads(&self, b: &Block) -> bool {
        let mut ok = true;
        for a in &b.eff.immutable_in {
            ok = ok & imm_present(&self.applied, &self.applied_ids, *a);
        }
        ok
    }
    fn vm_script(&self, b: &Block) -> bool {
        if world().cells && b.eff.call_id == 2 {
            let (i, o) = (b.eff.destructible_in.first(), b.eff.destructible_out.first());
            return match (i, o) {
                (Some(i), Some(o)) => match (cell_of(i.addr).data, o.data) {
                    (StateValue::Single { first: x }, StateValue::Single { first: y }) => x == y,
                    _ => false,
                },
                _ => false,
            };
        }
        b.eff.call_id == 0
    }
    fn vm_locks(&self, b: &Block) -> bool {
        let mut ok = true;
        if world().cells {
            for i in &b.eff.destructible_in {
                ok = ok & unlocked(i, &cell_of(i.addr));
            }
        }
        ok
    }
    fn closed(&self, b: &Block, seal: MSeal) -> bool {
        match b.wit {
            None => true,
            Some(p) => verdict(Query::Included(p.serial, b.cli, seal, MMsg(b.opid.to_byte_array()))),
        }
    }
    fn committed(&self, b: &Block) -> bool {
        match b.wit {
            None => true,
            Some(p) => {
                let m = MMsg(b.opid.to_byte_array());
                verdict(Query::Convolve(b.cli, m)) & verdict(Query::Published(p.serial, b.cli, m))
            }
        }
    }
    /// Takes the block as accepted.
    fn accept(&mut self, i: usize, known: bool) {
        let b = block(i);
        let (mut t, _) = self.closes(b);
        t.sort();
        while let Some(k) = t.pop() {
            self.live.remove(k);
        }
        for (p, d) in &b.defs {
            let addr = CellAddr::new(b.opid, *p);
            let seal = match b.wit {
                Some(w) => Some(resolve(*d, w.id)),
                None => {
                    if d.rel {
                        self.dead.push(addr);
                        None
                    } else {
                        Some(resolve(*d, 0))
                    }
                }
            };
            if let Some(seal) = seal {
                match self.find(&[], addr) {
                    Some(k) => self.live[k].seal = seal,
                    None => self.live.push(Live { addr, seal }),
                }
            }
        }
        if b.wit.is_some() {
            self.exp.push(Exp::Witness(i));
        }
        if !b.first && !known {
            self.exp.push(Exp::Op(i));
            self.applied.push(b.eff.clone());
            self.applied_ids.push(b.opid);
        }
        if !b.defs.is_empty() {
            self.exp.push(Exp::Seals(i));
        }
    }
}

fn judge(r: &Result<(), VerificationError<MSeal>>) {
    let w = world();
    let n = w.items.len();
    let mut sim = Sim { live: vec![], dead: vec![], applied: w.prior_applied.clone(), applied_ids: w.prior_ids.clone(), exp: vec![] };
    // Everything read before the last item was accepted; the last item decided the outcome.
    let mut ended = false;
    for i in 0..n {
        let last = i + 1 == n;
        match &w.items[i] {
            Item::End => {
                ended = true;
                check("P12|reading stops at the end of the consignment", last);
                check("P12|a consignment that ends is accepted if every block was", r.is_ok());
            }
            Item::Broken(c) => {
                check("P12|an unreadable consignment is rejected", r.is_err());
                check("P12|reading stops at a read failure", last);
                if let Err(e) = r {
                    match e {
                        VerificationError::Stream(e) => {
                            cover("err-stream");
                            let inner = e.downcast_ref::<RErr>();
                            check("P12|the read failure is reported as it was", match inner {
                                Some(x) => x.0 == *c,
                                None => false,
                            });
                        }
                        _ => check("P12|a read failure is reported as such", false),
                    }
                }
            }
            Item::Block(b) => {
                if !last {
                    let known = sim.known(b);
                    must_hold(&sim, b, known);
                    sim.accept(i, known);
                    cover(["block0", "block1", "block2", "block3", "block4", "block5+"][if i < 5 { i } else { 5 }]);
                } else {
                    check("P12|a consignment is accepted only when read to its end", r.is_err());
                    if let Err(e) = r {
                        rejected(&sim, b, e);
                    }
                }
            }
        }
    }
    if let Err(VerificationError::Stream(_)) = r {
        check("P12|a read failure is reported only for a broken stream", n > 0 && matches!(w.items[n - 1], Item::Broken(_)));
    }
    if r.is_ok() {
        cover("ok");
        check("P12|acceptance needs the end of the consignment", ended);
    }
    effects(&sim, r.is_ok());
}

/// What an accepted block must satisfy.
fn must_hold(sim: &Sim, b: &Block, known: bool) {
    if b.first {
        check(
            "P01|the first operation of an accepted consignment commits to the codex",
            b.op.contract_id.to_byte_array() == world().codex_id,
        );
    }
    check("P03|every seal definition accepted is authorised by the cell at its position", sim.c_defs(b));
    if b.defs.len() < b.eff.destructible_out.len() {
        cover("partial-defs");
    }
    let (t, missing) = sim.closes(b);
    check("P04|every consumed cell has a seal defined earlier and not consumed since", missing.is_empty());
    for a in &missing {
        check("P07|a witness-relative seal defined without a witness cannot be spent", !sim.dead.contains(a));
    }
    if !known {
        check("P02|an operation of another contract is not accepted", sim.vm_contract(b));
        check("P08|a new operation is accepted only if its destructible inputs are in memory", sim.vm_inputs(b));
        check("P08|a new operation is accepted only if its immutable inputs are in memory", sim.vm_reads(b));
        check("P08|a new operation is accepted only if its verifier passes", sim.vm_script(b));
        check("P08|a new operation is accepted only if it meets the locks of the cells it spends", sim.vm_locks(b));
        cover("unknown-op");
    } else {
        cover("known-op");
    }
    if b.wit.is_none() {
        check("P06|an operation with inputs is accepted only with a witness", b.eff.destructible_in.is_empty());
    } else {
        for k in &t {
            let l = &sim.live[*k];
            let ok = sim.closed(b, l.seal);
            check("P05|the witness closes every input seal over the operation id", ok);
            if l.seal.rel {
                check("P07|a witness-relative input seal is closed as resolved with its defining witness", ok);
                cover("rel-closed");
            } else {
                cover("abs-closed");
            }
        }
        check("P05|the witness commits to the operation id", sim.committed(b));
    }
}

/// Why a rejected block may be rejected.
fn rejected(sim: &Sim, b: &Block, e: &VerificationError<MSeal>) {
    let (t, missing) = sim.closes(b);
    match e {
        VerificationError::Stream(_) => {}
        VerificationError::NoCodexCommitment => {
            cover("err-codex");
            let real = b.first & (b.op.contract_id.to_byte_array() != world().codex_id);
            check("P01|the codex is reported missing only for a first operation not committing to it", real);
            check("P13|a valid block is not rejected: codex", real);
        }
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => {
            cover("err-defs");
            let real = !sim.c_defs(b);
            check("P03|definitions are rejected only if some is not authorised at its position", real);
            check("P13|a valid block is not rejected: definitions", real);
            check("P17|definition mismatch names the operation", *opid == b.opid);
            let (mut exp, empty) = (BTreeSet::<AuthToken>::new(), BTreeSet::<AuthToken>::new());
            for cell in &b.eff.destructible_out {
                exp.insert(cell.auth);
            }
            check("P17|definition mismatch lists the tokens of the operation", *defined == exp);
            let mut ok = sources.len() == b.defs.len();
            for (p, d) in &b.defs {
                check("P17|definition mismatch lists the reported tokens", reported.contains(&token(d.id, d.rel)));
                let mut hit = false;
                if b.concrete {
                    ok = ok & sources.get(p).is_some_and(|s| s.as_str() == DEF_NAMES[d.tag as usize % 16]);
                    continue;
                }
                for (q, s) in sources {
                    hit = hit | ((*q == *p) & (s.as_str() == DEF_NAMES[d.tag as usize % 16]));
                }
                ok = ok & hit;
            }
            check("P17|definition mismatch lists the reported definitions", ok);
            let mut all = !b.concrete || reported.len() <= b.defs.len();
            for x in if b.concrete { &empty } else { reported } {
                let mut hit = false;
                for (_, d) in &b.defs {
                    hit = hit | (token(d.id, d.rel) == *x);
                }
                all = all & hit;
            }
            check("P17|definition mismatch lists nothing that was not reported", all);
        }
        VerificationError::SealUnknown(a) => {
            cover("err-unknown");
            check("P04|a seal is unknown only if no earlier block defines it unconsumed", !missing.is_empty());
            check("P13|a valid block is not rejected: seals", !missing.is_empty());
            check("P17|the unknown seal named is that of an input without one", missing.contains(a));
            if missing.is_empty() {
                let rel = t.iter().any(|k| sim.live[*k].seal.rel);
                check("P07|a witness-relative seal defined with a witness can be spent", !rel);
                check("P07|an absolute seal can be spent", rel);
            } else if sim.dead.contains(a) {
                cover("rel-dead");
            }
        }
        VerificationError::Vm(e) => {
            cover("err-vm");
            let w = world();
            let known = sim.known(b);
            check("P08|known operations are not validated again", !known);
            let (c, i, m, s) = (sim.vm_contract(b), sim.vm_inputs(b), sim.vm_reads(b), sim.vm_script(b));
            let l = sim.vm_locks(b);
            let bad = !(c & i & m & s & l);
            check("P08|a new operation is rejected by validation only if it is invalid", bad);
            check("P13|a valid block is not rejected: validation", !known & bad);
            let right = match e {
                CallError::WrongContract { expected, found } => {
                    cover("vm-contract");
                    check("P02|another contract is reported only for one", !c);
                    (expected.to_byte_array() == CID) & (*found == b.eff.contract_id)
                }
                CallError::NoReadOnceInput(a) => {
                    cover("vm-input");
                    !cell_present(&sim.applied, &sim.applied_ids, *a)
                        & b.eff.destructible_in.iter().any(|x| x.addr == *a)
                }
                CallError::NoImmutableInput(a) => {
                    cover("vm-read");
                    !imm_present(&sim.applied, &sim.applied_ids, *a) & b.eff.immutable_in.iter().any(|x| *x == *a)
                }
                CallError::NotFound(x) => {
                    cover("vm-nocall");
                    (*x == b.eff.call_id) & (*x > 1 + w.cells as u16)
                }
                CallError::Script(_) | CallError::ScriptUnspecified => {
                    cover("vm-script");
                    (b.eff.call_id == 1) | ((b.eff.call_id == 2) & w.cells & !s)
                }
                CallError::Lock(_) => {
                    cover("vm-lock");
                    !l
                }
            };
            check("P17|the validation failure reported is the actual one", right);
        }
        VerificationError::SealsNotClosed(id, opid, e) => {
            cover("err-closing");
            match b.wit {
                None => {
                    check("P05|closing fails only with a witness", false);
                    check("P13|a valid block is not rejected: closing", false);
                }
                Some(p) => {
                    let mut ok = sim.committed(b);
                    for k in &t {
                        ok = ok & sim.closed(b, sim.live[*k].seal);
                    }
                    check("P05|closing is rejected only if some seal is not closed by the witness", !ok);
                    check("P13|a valid block is not rejected: closing", !ok);
                    if t.iter().any(|k| sim.live[*k].seal.rel) {
                        check("P07|a witness-relative seal resolved with its defining witness is closed by its closing", !ok);
                    }
                    check("P17|the failed closing names witness and operation", (id.0 == p.id) & (*opid == b.opid));
                    let right = match e {
                        SealError::NotIncluded(s, q) => {
                            cover("closing-seal");
                            let mut hit = false;
                            for k in &t {
                                let l = &sim.live[*k];
                                hit = hit | ((l.seal == *s) & !sim.closed(b, l.seal));
                            }
                            hit & (q.0 == p.id)
                        }
                        SealError::Client(e) => {
                            cover("closing-client");
                            e.0 == 1000 + b.cli
                        }
                        SealError::Published(e) => {
                            cover("closing-published");
                            e.0 == 2000 + p.serial
                        }
                    };
                    check("P17|the failed closing is explained", right);
                }
            }
        }
        VerificationError::NoWitness(opid) => {
            cover("err-nowitness");
            let real = b.wit.is_none() & !b.eff.destructible_in.is_empty();
            check("P06|the witness is reported missing only for an operation with inputs and none", real);
            check("P13|a valid block is not rejected: witness", real);
            check("P17|the missing witness names the operation", *opid == b.opid);
        }
    }
}

/// The effects on the ledger must be those of the accepted blocks, each once and in order.
fn effects(sim: &Sim, ok: bool) {
    let w = world();
    let same = w.ev.len() == sim.exp.len();
    if ok {
        check("P10|an accepted consignment has exactly the effects of its blocks", same);
    } else {
        check("P11|a rejected consignment has exactly the effects of the blocks before the failure", same);
        if !sim.exp.is_empty() {
            cover("partial-effects");
        }
    }
    // witness before operation, blocks in order; where the seals come in between is left open
    let mut got: Vec<&Ev> = vec![];
    got.extend(w.ev.iter().filter(|e| !matches!(e, Ev::Seals(..))));
    got.extend(w.ev.iter().filter(|e| matches!(e, Ev::Seals(..))));
    let mut exp: Vec<&Exp> = vec![];
    exp.extend(sim.exp.iter().filter(|e| !matches!(e, Exp::Seals(_))));
    exp.extend(sim.exp.iter().filter(|e| matches!(e, Exp::Seals(_))));
    let m = if got.len() < exp.len() { got.len() } else { exp.len() };
    let mut all = true;
    for k in 0..m {
        let right = match (got[k], exp[k]) {
            (Ev::Witness(id, x), Exp::Witness(i)) => {
                let b = block(*i);
                let hit = *id == b.opid;
                check("P02|a witness is recorded under the operation id", hit);
                let p = b.wit.unwrap();
                hit & (x.published.id == p.id) & (x.published.serial == p.serial) & (x.client.serial == b.cli)
            }
            (Ev::Op(id, op), Exp::Op(i)) => {
                let b = block(*i);
                let op = op.as_operation();
                let hit = (*id == b.opid) & (op.opid() == b.opid);
                check("P02|an applied operation is the one verified, with its own id", hit);
                check("P02|an applied operation belongs to the contract", op.contract_id.to_byte_array() == CID);
                hit
            }
            (Ev::Seals(id, s), Exp::Seals(i)) => {
                let b = block(*i);
                let hit = *id == b.opid;
                check("P02|seals are recorded under the operation id", hit);
                let mut all = hit & (s.len() == b.defs.len());
                for ((p, d), (q, e)) in s.iter().zip(b.defs.iter()) {
                    all = all & (*p == *q) & (*d == *e);
                }
                all
            }
            _ => false,
        };
        all = all & right;
    }
    if ok {
        check("P10|effects come in order, with the data of their block", all);
    } else {
        check("P11|the effects before a failure are those of the accepted blocks", all);
    }
    // each operation once; neither known ones nor the first
    let mut ids: Vec<Opid> = vec![];
    for e in &w.ev {
        if let Ev::Op(id, _) = e {
            let mut once = true;
            for x in &ids {
                once = once & (*x != *id);
            }
            check("P09|an operation is applied at most once", once);
            check("P09|an operation the ledger already knew is not applied", !known0(*id) && !w.prior_ids.contains(id));
            let mut placed = false;
            for (i, it) in w.items.iter().enumerate() {
                if let Item::Block(b) = it {
                    placed = placed | ((b.opid == *id) & (i > 0));
                }
            }
            check("P09|only operations after the first are applied", placed);
            ids.push(*id);
            cover("applied");
        }
    }
    if ok {
        let mut want = 0usize;
        for e in &sim.exp {
            if let Exp::Op(_) = e {
                want += 1;
            }
        }
        check("P09|every new operation of an accepted consignment is applied", ids.len() == want);
    }
}

/// Rejections can be shown to the user.
fn text(e: &VerificationError<MSeal>) {
    let s = e.to_string();
    check("P18|a rejection has a description", !s.is_empty());
    let d = format!("{:?}", e);
    check("P18|the debug description of a rejection is its description", s == d);
    let names = match e {
        VerificationError::NoWitness(opid) => s.contains(&opid.to_string()),
        VerificationError::SealsNotClosed(wid, opid, _) => s.contains(&opid.to_string()) && s.contains(&wid.to_string()),
        VerificationError::SealUnknown(a) => s.contains(&a.to_string()),
        VerificationError::SealsDefinitionMismatch { opid, .. } => s.contains(&opid.to_string()),
        _ => true,
    };
    check("P18|the description names the operation or cell", names);
    let cause = match e {
        VerificationError::Stream(e) => s.contains(&e.to_string()),
        VerificationError::SealsNotClosed(_, _, e) => s.contains(&e.to_string()),
        VerificationError::SealsDefinitionMismatch { sources, .. } => sources.values().all(|t| s.contains(t.as_str())),
        VerificationError::Vm(e) => s.contains(&e.to_string()),
        _ => true,
    };
    check("P18|the description tells the cause", cause);
    cover("text");
}

#[allow(dead_code)]
fn unused() { let _: SmallVec<u8> = none!(); }
