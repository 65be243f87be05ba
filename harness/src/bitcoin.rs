//! The bitcoin seal protocol of the crate: seal definitions over all field values, and whole
//! consignments with real transactions and anchors.

use core::error::Error;
use core::str::FromStr;
use std::collections::BTreeMap;

use amplify::confinement::{Confined, SmallOrdMap, SmallVec};
use amplify::num::u5;
use amplify::{default, none, ByteArray, Bytes};
use bp::seals::{mmb, mpc, Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::{LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid, Vout};
use commit_verify::CommitId;
use rgbcore::{
    ContractApi, ContractVerify, OperationSeals, ReadOperation, RgbSealDef, VerificationError,
};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness};
use ultrasonic::{
    fe256, AuthToken, CellAddr, Codex, ContractId, Input, LibRepo, Memory, Operation, Opid, StateCell, StateValue,
    VerifiedOperation,
};

use crate::mock::Ledger;
use crate::run::{new_ledger, CID};
use crate::sym::*;

fn any_txid(n: &str) -> Txid { Txid::from_byte_array(any::<32>(n)) }
fn any_outpoint() -> Outpoint { Outpoint::new(any_txid("txid"), Vout::from_u32(any_u32("vout"))) }
fn any_primary() -> WOutpoint {
    match choose(2, "primary.kind") {
        0 => WOutpoint::Wout(Vout::from_u32(any_u32("wout"))),
        _ => WOutpoint::Extern(any_outpoint()),
    }
}
fn any_secondary() -> TxoSealExt {
    match choose(2, "secondary.kind") {
        0 => TxoSealExt::Noise(Noise::from(Bytes::<40>::from_byte_array(any::<40>("noise")))),
        _ => TxoSealExt::Fallback(any_outpoint()),
    }
}
fn any_def() -> WTxoSeal {
    let primary = any_primary();
    WTxoSeal { primary, secondary: any_secondary() }
}

// Comparison written out without short circuits, so that it does not fork.
fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        let mut i = 0;
        while i < a.len() {
            ok = ok & (a[i] == b[i]);
            i += 1;
        }
    }
    ok
}
fn eq_outpoint(a: &Outpoint, b: &Outpoint) -> bool {
    eq_bytes(&a.txid.to_byte_array(), &b.txid.to_byte_array()) & (a.vout.to_u32() == b.vout.to_u32())
}
fn eq_ext(a: &TxoSealExt, b: &TxoSealExt) -> bool {
    match (a, b) {
        (TxoSealExt::Noise(x), TxoSealExt::Noise(y)) => x == y,
        (TxoSealExt::Fallback(x), TxoSealExt::Fallback(y)) => eq_outpoint(x, y),
        _ => false,
    }
}
fn eq_def(a: &WTxoSeal, b: &WTxoSeal) -> bool {
    let p = match (a.primary, b.primary) {
        (WOutpoint::Wout(x), WOutpoint::Wout(y)) => x.to_u32() == y.to_u32(),
        (WOutpoint::Extern(x), WOutpoint::Extern(y)) => eq_outpoint(&x, &y),
        _ => false,
    };
    p & eq_ext(&a.secondary, &b.secondary)
}

/// Resolution of every definition with every witness id.
pub fn resolution() {
    let d = any_def();
    let wid = any_txid("witness.id");
    let s = d.resolve(wid);
    let src = d.to_src();
    match d.primary {
        WOutpoint::Wout(v) => {
            cover("relative");
            check("P19|a witness-relative definition resolves to that output of the witness", eq_bytes(&s.primary.txid.to_byte_array(), &wid.to_byte_array()) & (s.primary.vout.to_u32() == v.to_u32()));
            check("P20|a witness-relative definition is no seal without a witness", src.is_none());
        }
        WOutpoint::Extern(o) => {
            cover("absolute");
            check("P19|an absolute definition resolves to its own outpoint", eq_outpoint(&s.primary, &o));
            check("P20|an absolute definition is a seal without a witness", src.is_some());
        }
    }
    check("P19|resolution keeps the fallback or noise", eq_ext(&s.secondary, &d.secondary));
    if let Some(x) = src {
        check("P20|conversion and resolution give the same seal", eq_outpoint(&x.primary, &s.primary) & eq_ext(&x.secondary, &s.secondary));
    }
}

/// Token of every definition; tokens of every two definitions.
pub fn tokens() {
    let a = any_def();
    let t = a.auth_token();
    let id = a.commit_id().to_byte_array();
    let tb = token_bytes(t);
    check("P21|the token is the first 30 bytes of the commitment to the definition", eq_bytes(&tb[..30], &id[..30]) & (tb[30] == 0) & (tb[31] == 0));
    let b = any_def();
    let u = b.auth_token();
    if eq_def(&a, &b) {
        cover("same-def");
        check("P21|the token depends on the definition only", eq_bytes(&token_bytes(t), &token_bytes(u)));
    } else {
        cover("different-defs");
        check("P21|different definitions have different tokens", !eq_bytes(&token_bytes(t), &token_bytes(u)));
    }
}
fn token_bytes(t: AuthToken) -> [u8; 32] { t.to_fe256().to_u256().to_le_bytes() }

// ------------------------------------------------------------------ whole consignments

#[derive(Clone)]
struct BBlock {
    op: Operation,
    opid: Opid,
    defs: Vec<(u16, WTxoSeal)>,
    wit: Option<(Tx, Anchor, bool)>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct NoErr;
impl core::fmt::Debug for NoErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("none") }
}
impl core::fmt::Display for NoErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("none") }
}
impl Error for NoErr {}

struct BReader {
    blocks: Vec<BBlock>,
    at: usize,
}
impl ReadOperation for BReader {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<OperationSeals<TxoSeal>>, impl Error + 'static> {
        let i = self.at;
        self.at += 1;
        if i >= self.blocks.len() {
            return Ok::<_, NoErr>(None);
        }
        let b = self.blocks[i].clone();
        let mut m = SmallOrdMap::new();
        for (p, d) in b.defs {
            let _ = m.insert(p, d);
        }
        Ok(Some(OperationSeals {
            operation: b.op,
            defined_seals: m,
            witness: b.wit.map(|(t, a, _)| SealWitness::new(t, a)),
        }))
    }
}

struct BLedger {
    inner: Ledger,
    genesis: Opid,
    ops: Vec<Opid>,
    spent: Vec<CellAddr>,
    seals: Vec<(Opid, usize)>,
    wits: Vec<Opid>,
}
impl Memory for BLedger {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        if self.spent.contains(&addr) {
            return None;
        }
        Some(StateCell { data: StateValue::None, auth: AuthToken::from_byte_array([0; 30]), lock: None })
    }
    fn immutable(&self, _: CellAddr) -> Option<StateValue> { None }
}
impl LibRepo for BLedger {
    fn get_lib(&self, id: ultrasonic::aluvm::alu::LibId) -> Option<&ultrasonic::aluvm::alu::Lib> { self.inner.get_lib(id) }
}
impl ContractApi<TxoSeal> for BLedger {
    fn contract_id(&self) -> ContractId { ContractId::from_byte_array(CID) }
    fn codex(&self) -> &Codex { &self.inner.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool { opid == self.genesis || self.ops.contains(&opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        self.ops.push(op.opid());
        for i in &op.as_operation().destructible_in {
            self.spent.push(i.addr);
        }
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, WTxoSeal>) { self.seals.push((opid, seals.len())); }
    fn apply_witness(&mut self, opid: Opid, _: SealWitness<TxoSeal>) { self.wits.push(opid); }
}

fn txin(o: Outpoint) -> TxIn {
    TxIn { prev_output: o, sig_script: none!(), sequence: SeqNo::from_consensus_u32(0), witness: none!() }
}
fn outpoint(b: u8, v: u32) -> Outpoint { Outpoint::new(Txid::from_byte_array([b; 32]), Vout::from_u32(v)) }

fn noise_of(b: u8) -> TxoSealExt { TxoSealExt::Noise(Noise::from(Bytes::<40>::from_byte_array([b; 40]))) }

fn operation(nonce: u8, ins: &[CellAddr], outs: &[WTxoSeal]) -> (Operation, Opid) {
    let mut op = Operation {
        version: default!(),
        contract_id: ContractId::from_byte_array(CID),
        call_id: 0,
        nonce: fe256::from(nonce),
        witness: StateValue::None,
        destructible_in: SmallVec::new(),
        immutable_in: SmallVec::new(),
        destructible_out: SmallVec::new(),
        immutable_out: SmallVec::new(),
    };
    for a in ins {
        let _ = op.destructible_in.push(Input { addr: *a, witness: StateValue::None });
    }
    for d in outs {
        let _ = op.destructible_out.push(StateCell { data: StateValue::None, auth: d.auth_token(), lock: None });
    }
    let id = op.opid();
    (op, id)
}

/// How the witness transaction commits.
const RIGHT: usize = 0;

/// A transaction with an anchor whose bundle assigns messages to inputs.
fn witness(inputs: &[Outpoint], map: &[(u32, [u8; 32])], commit: usize) -> (Tx, Anchor, bool) {
    let mut m = BTreeMap::new();
    for (i, x) in map {
        m.insert(*i, mmb::Message::from_byte_array(*x));
    }
    let bundle = mmb::BundleProof { map: SmallOrdMap::from_checked(m) };
    let protocol = mpc::ProtocolId::from_byte_array([0xAD; 32]);
    let mut messages = BTreeMap::new();
    messages.insert(protocol, mpc::MessageSource::Mmb(bundle.clone()));
    let source = mpc::Source {
        min_depth: u5::with(0),
        entropy: 0xFE,
        messages: mpc::MessageMap::from(Confined::from_checked(messages)),
    };
    let tree = source.into_merkle_tree().unwrap();
    let root = tree.commit_id();
    let proof = tree.into_proofs().next().unwrap().1;
    let anchor = Anchor {
        mmb_proof: bundle,
        mpc_protocol: protocol,
        mpc_proof: proof,
        dbc_proof: None,
        fallback_proof: none!(),
    };
    let mut tx = Tx {
        version: default!(),
        inputs: Confined::from_checked(vec![]),
        outputs: Confined::from_checked(vec![]),
        lock_time: LockTime::from_consensus_u32(0),
    };
    for o in inputs {
        let _ = tx.inputs.push(txin(*o));
    }
    let mut ok = false;
    let spk = match commit {
        // the commitment
        0 => {
            ok = true;
            Some(ScriptPubkey::op_return(root.as_slice()))
        }
        // any 32 bytes
        1 => {
            let x = any::<32>("tx.commitment");
            ok = eq_bytes(&x, root.as_slice());
            Some(ScriptPubkey::op_return(&x))
        }
        // something of the right form
        2 => Some(ScriptPubkey::op_return(&[0x55; 32])),
        // nothing
        _ => None,
    };
    let _ = tx.outputs.push(TxOut { value: Sats::from_sats(1000u64), script_pubkey: ScriptPubkey::from_checked(vec![0x51]) });
    if let Some(s) = spk {
        let _ = tx.outputs.push(TxOut { value: Sats::ZERO, script_pubkey: s });
    }
    (tx, anchor, ok)
}

/// Does the witness close the seal over the message? Written from the definition of the protocol.
fn closes(w: &(Tx, Anchor, bool), seal: &Outpoint, opid: Opid) -> bool {
    let m = opid.to_byte_array();
    let mut done = false;
    let mut ok = false;
    for (i, x) in w.0.inputs.iter().enumerate() {
        let hit = eq_outpoint(&x.prev_output, seal) & !done;
        let mut said = false;
        for (k, v) in &w.1.mmb_proof.map {
            said = said | ((*k == i as u32) & eq_bytes(&v.to_byte_array(), &m));
        }
        ok = ok | (hit & said);
        done = done | hit;
    }
    ok
}
fn commits(w: &(Tx, Anchor, bool), opid: Opid) -> bool {
    let m = opid.to_byte_array();
    let mut said = false;
    for (_, v) in &w.1.mmb_proof.map {
        said = said | eq_bytes(&v.to_byte_array(), &m);
    }
    said & w.2
}

/// Genesis -> transfer of an absolute and of a relative seal -> transfer of the new seals. In the
/// last transaction everything that matters is symbolic.
pub fn consignment(steps: usize) { explore(steps, steps == 1) }
/// ... every input of the last transaction symbolic
pub fn consignment_free(steps: usize) { explore(steps, true) }

fn explore(steps: usize, free: bool) {
    memo::<Operation>("10ultrasonic9operation9OperationNt");
    memo_fn("13commit_verify6merkleNtB6_10MerkleHash4void");
    memo::<mmb::BundleProof>("8bp_seals5txout3mmb11BundleProofNt");
    let inner = new_ledger();
    let codex_id = inner.codex.codex_id().to_byte_array();
    let seal_a = outpoint(0xA1, 1);
    let seal_b = outpoint(0xB2, 0);
    let def_abs = WTxoSeal { primary: WOutpoint::Extern(seal_a), secondary: noise_of(1) };
    let def_rel = WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(0)), secondary: TxoSealExt::Fallback(seal_b) };
    let def_new = WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(3)), secondary: noise_of(2) };
    let def_ext = WTxoSeal { primary: WOutpoint::Extern(seal_b), secondary: noise_of(3) };

    let (op0, id0) = operation(0, &[], &[def_abs, def_rel]);
    let mut raw0 = op0.clone();
    raw0.contract_id = ContractId::from_byte_array(codex_id);
    let wit0 = if choose(2, "genesis.witness") == 1 {
        Some(witness(&[outpoint(0x33, 3)], &[(0, id0.to_byte_array())], RIGHT))
    } else {
        None
    };
    let mut blocks = vec![BBlock { op: raw0, opid: id0, defs: vec![(0, def_abs), (1, def_rel)], wit: wit0 }];
    let mut live: Vec<(CellAddr, Outpoint)> = vec![(CellAddr::new(id0, 0), seal_a)];
    if let Some(w) = &blocks[0].wit {
        live.push((CellAddr::new(id0, 1), Outpoint::new(w.0.txid(), Vout::from_u32(0))));
    }

    for step in 1..=steps {
        let last = step == steps;
        // what is spent
        let prev = blocks[step - 1].opid;
        let ins: Vec<CellAddr> = match choose(if step == 1 { 3 } else { 5 }, "op.spends") {
            0 => vec![CellAddr::new(prev, 0)],
            1 => vec![CellAddr::new(prev, 1)],
            2 => vec![CellAddr::new(prev, 0), CellAddr::new(prev, 1)],
            // with one the operation before left or spent
            3 => vec![CellAddr::new(id0, 0), CellAddr::new(prev, 0)],
            _ => vec![CellAddr::new(prev, 1), CellAddr::new(id0, 1)],
        };
        let outs = [def_new, def_ext];
        let (op, opid) = operation(step as u8, &ins, if last { &[] } else { &outs });
        // with what transaction
        let spent: Vec<Outpoint> = ins
            .iter()
            .map(|a| live.iter().find(|l| l.0 == *a).map(|l| l.1).unwrap_or(outpoint(0x44, 4)))
            .collect();
        let w = if last {
            let n = 1 + choose(2, "tx.inputs");
            let mut inputs = vec![];
            for k in 0..n {
                if k == 0 || free {
                    inputs.push(any_outpoint());
                } else {
                    inputs.push(spent[spent.len() - 1]);
                }
            }
            let mut map = vec![];
            for i in 0..n as u32 {
                match choose(3, "bundle.message") {
                    0 => {}
                    1 => map.push((i, opid.to_byte_array())),
                    _ => map.push((i, [0x99; 32])),
                }
            }
            if free && choose(2, "bundle.extra") == 1 {
                map.push((7, opid.to_byte_array()));
            }
            witness(&inputs, &map, 1 + choose(3, "tx.commits"))
        } else {
            let mut inputs = spent.clone();
            let mut map: Vec<_> = (0..inputs.len() as u32).map(|i| (i, opid.to_byte_array())).collect();
            match choose(3, "tx.wrong") {
                1 => inputs[0] = outpoint(0x55, 5),
                2 => map[0].1 = [0x99; 32],
                _ => {}
            }
            witness(&inputs, &map, RIGHT)
        };
        let defs = if last { vec![] } else { vec![(0, def_new), (1, def_ext)] };
        if !last {
            live.push((CellAddr::new(opid, 0), Outpoint::new(w.0.txid(), Vout::from_u32(3))));
            live.push((CellAddr::new(opid, 1), seal_b));
        }
        blocks.push(BBlock { op, opid, defs, wit: Some(w) });
    }

    let mut ledger = BLedger { inner, genesis: id0, ops: vec![], spent: vec![], seals: vec![], wits: vec![] };
    let r = ledger.evaluate(BReader { blocks: blocks.clone(), at: 0 });
    check("P14|evaluation ends", true);

    // which block must be the first to be rejected
    let mut ok = true;
    let mut good = 1usize;
    let mut gone: Vec<CellAddr> = vec![];
    for b in &blocks[1..] {
        let w = b.wit.as_ref().unwrap();
        let mut fine = commits(w, b.opid);
        for i in &b.op.destructible_in {
            match live.iter().find(|l| l.0 == i.addr && !gone.contains(&l.0)) {
                Some(l) => fine = fine & closes(w, &l.1, b.opid),
                None => fine = false,
            }
        }
        gone.extend(b.op.destructible_in.iter().map(|i| i.addr));
        if ok && !fine {
            ok = false;
        }
        if ok {
            good += 1;
        }
    }
    match &r {
        Ok(()) => {
            cover("accepted");
            check("P22|on bitcoin a transfer is accepted only if its transaction spends each closed seal's outpoint and commits to it", ok);
        }
        Err(e) => {
            cover(match e {
                VerificationError::SealUnknown(_) => "seal-unknown",
                VerificationError::SealsNotClosed(..) => "not-closed",
                _ => "other-error",
            });
            check("P22|on bitcoin a transfer whose transaction spends and commits is accepted", !ok);
        }
    }
    check("P22|on bitcoin exactly the operations before the failure are applied", ledger.ops.len() == good - 1);
    for (k, id) in ledger.ops.iter().enumerate() {
        check("P22|on bitcoin operations are applied in order", *id == blocks[k + 1].opid);
    }
}

#[allow(dead_code)]
fn unused(a: &Anchor, m: mmb::Message) {
    let _ = a.convolve_commit(m);
    let _ = Tx::pub_id;
    let _ = Txid::from_str;
    let _: SmallVec<u8> = none!();
}
