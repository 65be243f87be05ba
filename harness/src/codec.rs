//! The consignment block as data: encoding, decoding of arbitrary bytes, copies.

use amplify::confinement::{SmallOrdMap, SmallVec};
use amplify::{default, ByteArray};
use rgbcore::OperationSeals;
use single_use_seals::{SealWitness, SingleUseSeal};
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader, StrictWriter};
use ultrasonic::{fe256, CellAddr, ContractId, Input, Operation, Opid, StateCell, StateData, StateValue};

use crate::mock::*;
use crate::serial::{self, Tok};
use crate::sym::{assume, check, choose, concrete, cover};

pub fn bytes_of<T: StrictEncode>(v: &T) -> Vec<u8> {
    let w = StrictWriter::in_memory::<{ usize::MAX }>();
    match v.strict_encode(w) {
        Ok(w) => unwrap_writer(w),
        Err(_) => {
            check("P23|every value can be encoded", false);
            vec![]
        }
    }
}
fn unwrap_writer(w: StrictWriter<StreamWriter<Vec<u8>>>) -> Vec<u8> { w.unbox().unconfine() }

fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        let mut i = 0;
        while i < a.len() {
            ok = ok & (a[i] == b[i]);
            i += 1;
        }
    }
    ok
}

fn any_fe(n: &str) -> fe256 {
    // below 2^248, hence in the field
    let mut b = [0u8; 32];
    b[..31].copy_from_slice(&any::<31>(n));
    fe256::from(b)
}
fn any_value() -> StateValue {
    match content() {
        Content::NoValues => return StateValue::None,
        Content::Fixed => return StateValue::Single { first: any_fe("value") },
        Content::Free => {}
    }
    match choose(3, "value.kind") {
        0 => StateValue::None,
        1 => StateValue::Single { first: any_fe("value") },
        _ => StateValue::Double { first: any_fe("value"), second: any_fe("value") },
    }
}
fn any_addr() -> CellAddr { CellAddr::new(Opid::from_byte_array(any::<32>("addr.opid")), any_u16("addr.pos")) }

/// Content of the parts of a block.
#[derive(Clone, Copy, PartialEq)]
enum Content {
    /// symbolic
    Free,
    /// symbolic, but no values: see `serial`
    NoValues,
    /// some distinct concrete bytes
    Fixed,
}
static mut CONTENT: Content = Content::Free;
static mut NEXT: u8 = 0;
fn content() -> Content { unsafe { CONTENT } }
fn any<const N: usize>(n: &str) -> [u8; N] {
    if content() != Content::Fixed {
        return crate::sym::any::<N>(n);
    }
    let mut v = [0u8; N];
    for x in v.iter_mut() {
        unsafe {
            NEXT = NEXT.wrapping_add(7);
            *x = NEXT;
        }
    }
    v
}
fn any_u8(n: &str) -> u8 { any::<1>(n)[0] }
fn any_u16(n: &str) -> u16 { u16::from_le_bytes(any(n)) }
fn any_u32(n: &str) -> u32 { u32::from_le_bytes(any(n)) }
fn any_u64(n: &str) -> u64 { u64::from_le_bytes(any(n)) }
fn any_bool(n: &str) -> bool { any_u8(n) & 1 == 1 }

fn any_operation(rich: bool) -> Operation {
    let mut op = Operation {
        version: default!(),
        contract_id: ContractId::from_byte_array(any::<32>("op.contract")),
        call_id: any_u16("op.call"),
        nonce: any_fe("op.nonce"),
        witness: StateValue::None,
        destructible_in: SmallVec::new(),
        immutable_in: SmallVec::new(),
        destructible_out: SmallVec::new(),
        immutable_out: SmallVec::new(),
    };
    // the serde form of operations is the business of a dependency: all parts or none
    let full = choose(if content() != Content::Free && rich { 2 } else { 1 }, "op.full");
    let upto = |n: usize, name: &str| if content() == Content::Free { choose(n + 1, name) } else { full * n };
    if rich {
        op.witness = any_value();
        for _ in 0..upto(2, "op.inputs") {
            let _ = op.destructible_in.push(Input { addr: any_addr(), witness: StateValue::None });
        }
        for _ in 0..upto(1, "op.reads") {
            let _ = op.immutable_in.push(any_addr());
        }
        for _ in 0..upto(2, "op.outputs") {
            let mut t = [0u8; 30];
            t.copy_from_slice(&any::<30>("auth"));
            let _ = op.destructible_out.push(StateCell {
                data: if content() == Content::NoValues {
                    StateValue::None
                } else {
                    StateValue::Single { first: any_fe("value") }
                },
                auth: ultrasonic::AuthToken::from_byte_array(t),
                lock: None,
            });
        }
        for _ in 0..upto(1, "op.state") {
            let _ = op.immutable_out.push(StateData { value: any_value(), raw: None });
        }
    }
    op
}
fn any_block(rich: bool, ndefs: usize) -> OperationSeals<MSeal> {
    let operation = any_operation(rich);
    let mut defined_seals = SmallOrdMap::new();
    let mut last: Option<u16> = None;
    for _ in 0..choose(ndefs + 1, "defs") {
        let mut p = any_u16("def.pos");
        if let Some(q) = last {
            if content() == Content::Fixed {
                p = q.wrapping_add(300);
            }
            assume(q < p);
        }
        last = Some(p);
        let _ = defined_seals.insert(p, MDef { id: any_u64("def.id"), rel: any_bool("def.relative"), tag: any_u8("def.tag") });
    }
    let witness = if choose(2, "witness") == 1 {
        Some(SealWitness::new(MPub { id: any_u64("pub.id"), serial: any_u32("pub.serial") }, MCli { serial: any_u32("cli.serial") }))
    } else {
        None
    };
    OperationSeals { operation, defined_seals, witness }
}

fn same(a: &OperationSeals<MSeal>, b: &OperationSeals<MSeal>) -> (bool, bool, bool) {
    let op = eq(&bytes_of(&a.operation), &bytes_of(&b.operation));
    let mut defs = a.defined_seals.len() == b.defined_seals.len();
    for ((p, d), (q, e)) in a.defined_seals.iter().zip(b.defined_seals.iter()) {
        defs = defs & (*p == *q) & (d.id == e.id) & (d.rel == e.rel) & (d.tag == e.tag);
    }
    let wit = match (&a.witness, &b.witness) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            (x.published.id == y.published.id)
                & (x.published.serial == y.published.serial)
                & (x.client.serial == y.client.serial)
        }
        _ => false,
    };
    (op, defs, wit)
}

fn decode<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), ()> {
    let mut r = StrictReader::with(StreamReader::cursor::<{ usize::MAX }>(b));
    match T::strict_decode(&mut r) {
        Ok(v) => {
            let c = r.unbox().into_cursor_position();
            Ok((v, c))
        }
        Err(_) => Err(()),
    }
}
trait Position {
    fn into_cursor_position(self) -> usize;
}
impl<T: AsRef<[u8]>> Position for StreamReader<std::io::Cursor<T>> {
    fn into_cursor_position(self) -> usize { self.unconfine().position() as usize }
}

/// A block with many definitions, one of them (at any of some places) symbolic.
fn any_wide() -> OperationSeals<MSeal> {
    const SIZES: [usize; 6] = [127, 128, 255, 256, 257, 300];
    let n = SIZES[choose(SIZES.len(), "defs")];
    let at = [0, n / 2, n - 1][choose(3, "at")];
    // from 0 on; around 256; up to the last
    let base = [0, 200, 0x10000 - n][choose(3, "from")];
    let operation = any_operation(false);
    let mut defined_seals = SmallOrdMap::new();
    for k in 0..n {
        let here = k == at;
        let id = if here { any_u64("def.id") } else { k as u64 * 0x0101_0101 };
        let d = MDef { id, rel: if here { any_bool("def.relative") } else { k % 2 == 1 }, tag: if here { any_u8("def.tag") } else { k as u8 } };
        let _ = defined_seals.insert((base + k) as u16, d);
    }
    let witness = Some(SealWitness::new(MPub { id: any_u64("pub.id"), serial: 5 }, MCli { serial: any_u32("cli.serial") }));
    OperationSeals { operation, defined_seals, witness }
}
/// Encoding, copy and serde form of a block with many definitions.
pub fn wide(serde: bool) {
    if serde {
        unsafe { CONTENT = Content::NoValues };
        let b = any_wide();
        serial_of(&b, false);
        return;
    }
    let b = any_wide();
    round_of(&b);
    copy_of(&b);
}

/// The encoding of a block is what its parts say, and decodes to the block.
pub fn round(rich: bool, ndefs: usize) {
    let b = any_block(rich, ndefs);
    let enc = round_of(&b);
    let n = enc.len();
    if rich {
        return;
    }
    // every proper prefix is refused
    let cut = any_u16("cut") as usize;
    assume(cut < n);
    let cut = concrete(cut);
    let r = decode::<OperationSeals<MSeal>>(&enc[..cut]);
    if r.is_err() {
        cover("prefix-refused");
    }
    check("P24|a truncated block is refused", r.is_err());
}
fn round_of(b: &OperationSeals<MSeal>) -> Vec<u8> {
    let enc = bytes_of(b);
    // operation, then seals by position, then the witness
    let mut exp = bytes_of(&b.operation);
    exp.extend((b.defined_seals.len() as u16).to_le_bytes());
    for (p, d) in &b.defined_seals {
        exp.extend(p.to_le_bytes());
        exp.extend(d.id.to_le_bytes());
        exp.push(d.rel as u8);
        exp.push(d.tag);
    }
    match &b.witness {
        None => exp.push(0),
        Some(w) => {
            cover("with-witness");
            exp.push(1);
            exp.extend(w.published.id.to_le_bytes());
            exp.extend(w.published.serial.to_le_bytes());
            exp.extend(w.client.serial.to_le_bytes());
        }
    }
    check("P23|a block is encoded as operation, seals by position, optional witness", eq(&enc, &exp));
    // whatever follows is left alone
    let n = enc.len();
    let mut more = enc.clone();
    more.extend(any::<3>("trailing"));
    match decode::<OperationSeals<MSeal>>(&more) {
        Ok((c, used)) => {
            cover("decoded");
            let (op, defs, wit) = same(b, &c);
            check("P23|decoding restores the operation", op);
            check("P23|decoding restores the seals", defs);
            check("P23|decoding restores the witness", wit);
            check("P23|decoding reads exactly the encoding", used == n);
        }
        Err(_) => check("P23|the encoding of a block can be decoded", false),
    }
    enc
}
/// Decoding of arbitrary bytes after a fixed operation.
pub fn bytes(tail: usize) {
    let op = any_operation(false);
    let mut b = bytes_of(&op);
    let n = b.len();
    match tail {
        0 => b.extend(any::<15>("bytes")),
        _ => b.extend(any::<32>("bytes")),
    }
    arbitrary(b, n);
}
/// Decoding of wholly arbitrary bytes.
pub fn raw() { arbitrary(any::<92>("bytes").to_vec(), 0) }

pub fn raw_long() { arbitrary(any::<106>("bytes").to_vec(), 0) }

fn arbitrary(b: Vec<u8>, _n: usize) {
    match decode::<OperationSeals<MSeal>>(&b) {
        Ok((v, used)) => {
            cover("accepted");
            if v.witness.is_some() {
                cover("accepted-witness");
            }
            if !v.defined_seals.is_empty() {
                cover("accepted-defs");
            }
            check("P24|what is decoded encodes to the bytes it was read from", eq(&bytes_of(&v), &b[..used]));
            let mut last: Option<u16> = None;
            let mut sorted = true;
            for (p, _) in &v.defined_seals {
                if let Some(q) = last {
                    sorted = sorted & (q < *p);
                }
                last = Some(*p);
            }
            check("P24|decoded seals are ordered by position, one each", sorted);
        }
        Err(()) => cover("refused"),
    }
}

/// A copy of a block is the block.
pub fn copies() {
    copy_of(&any_block(true, 1));
}
fn copy_of(b: &OperationSeals<MSeal>) {
    let c = b.clone();
    let (op, defs, wit) = same(b, &c);
    check("P25|a copy has the operation", op);
    check("P25|a copy has the seals", defs);
    check("P25|a copy has the witness", wit);
    cover("copied");
}

/// The serde form of a block. Through a human-readable format the content is concrete; through
/// another one it is symbolic, without state values, since the serde form of these (a dependency's)
/// can be read back from human-readable formats only.
pub fn serial() {
    let human = choose(2, "human") == 1;
    unsafe { CONTENT = if human { Content::Fixed } else { Content::NoValues } };
    let b = any_block(true, 2);
    serial_of(&b, human);
}
fn serial_of(b: &OperationSeals<MSeal>, human: bool) {
    let toks = match serial::write(b, human) {
        Ok(t) => t,
        Err(_) => return check("P26|every block can be serialised", human),
    };
    // a map with the three parts under their names, each as it serialises by itself
    let names = ["operation", "definedSeals", "witness"];
    let parts = [serial::write(&b.operation, human), serial::write(&b.defined_seals, human), serial::write(&b.witness, human)];
    let (mut exp, mut bounds) = (vec![Tok::Map], vec![]);
    for (n, p) in names.iter().zip(parts) {
        let from = exp.len();
        exp.push(Tok::Str(n.to_string()));
        match p {
            Ok(t) => exp.extend(t),
            Err(_) => return check("P26|every part can be serialised", human),
        }
        bounds.push((from, exp.len()));
    }
    exp.push(Tok::End);
    check("P26|a block is serialised as operation, definedSeals and witness", eq_toks(&toks, &exp));
    match serial::read::<OperationSeals<MSeal>>(&exp, human) {
        Ok((c, used)) => {
            cover("deserialised");
            if b.witness.is_some() {
                cover("with-witness");
            }
            let (op, defs, wit) = same(b, &c);
            check("P26|deserialising restores the operation", op);
            check("P26|deserialising restores the seals", defs);
            check("P26|deserialising restores the witness", wit);
            check("P26|deserialising reads all of it", used == exp.len());
        }
        Err(_) => check("P26|the serialised form of a block can be read", human),
    }
    // without the operation or the seals it is not one, nor with one of its parts twice
    let k = choose(5, "damage");
    let (from, to) = bounds[k % 3];
    let mut bad = exp.clone();
    if k < 2 {
        bad.drain(from..to);
        check("P26|a block without operation or seals is refused", serial::read::<OperationSeals<MSeal>>(&bad, human).is_err());
    } else {
        bad = exp[..to].to_vec();
        bad.extend_from_slice(&exp[from..]);
        check("P26|a block with a part given twice is refused", serial::read::<OperationSeals<MSeal>>(&bad, human).is_err());
    }
}
fn eq_toks(a: &[Tok], b: &[Tok]) -> bool {
    let mut ok = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        ok = ok
            & match (x, y) {
                (Tok::Int(p, m), Tok::Int(q, n)) => (p == q) & (m == n),
                (Tok::Bool(p), Tok::Bool(q)) => p == q,
                (Tok::Bytes(p), Tok::Bytes(q)) => eq(p, q),
                _ => x == y,
            };
    }
    ok
}

#[allow(dead_code)]
fn unused<S: SingleUseSeal>() {}
