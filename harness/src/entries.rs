//! The explored configurations; one entry point each.
use crate::mock::*;
use crate::run::*;

const CODEX: &[u8] = &[1];
const OURS: &[u8] = &[0];
const OK: &[u16] = &[0];
const NOWIT: &[bool] = &[false];
const WIT: &[bool] = &[true];
const MAYWIT: &[bool] = &[false, true];

const GEN: BCfg = BCfg {
    end: false, broken: false, cids: CODEX, calls: OK, n_in: (0, 0), in_pos: 0, in_unknown: false, n_imm: (0, 0),
    outs: &[&[0, 1]], defs: Defs::All, wit: NOWIT, resend: false, fields: false, locks: &[0], state: false,
};
const OP: BCfg = BCfg {
    end: false, broken: false, cids: OURS, calls: OK, n_in: (1, 1), in_pos: 2, in_unknown: false, n_imm: (0, 0),
    outs: &[&[0]], defs: Defs::All, wit: WIT, resend: false, fields: false, locks: &[0], state: false,
};
const BASE: Cfg = Cfg { blocks: &[], special: None, honest: false, known: FREE, mem: FREE, cells: false, twice: false, text: false, resume: false, then: &[] };

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() { $body })*
        /// For the native replay.
        #[allow(dead_code)]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
macro_rules! consignment {
    ($cfg:expr) => {{
        static CFG: Cfg = $cfg;
        run(&CFG)
    }};
}

/// Every list of at most two outputs over two absolute and one relative seal.
const OUTS2: &[&[u8]] = &[
    &[], &[0], &[1], &[2], &[0, 0], &[0, 1], &[0, 2], &[1, 0], &[1, 1], &[1, 2], &[2, 0], &[2, 1], &[2, 2],
];

/// ... lists of three, in which definitions may be missing, equal, or exchanged.
const OUTS3: &[&[u8]] = &[&[0, 1, 2], &[0, 0, 0], &[0, 2, 0], &[2, 2, 1], &[0, 1]];

entries! {
    // First block: who it commits to, what it may contain.
    h_first => consignment!(Cfg {
        blocks: &[
            BCfg { end: true, broken: true, cids: &[3, 1, 0, 2], calls: &[0, 1, 3], n_in: (0, 1), in_unknown: true, n_imm: (0, 1),
                   outs: &[&[], &[0], &[2]], defs: Defs::Sym(0, 1), wit: MAYWIT, ..GEN },
        ],
        ..BASE
    });
    // Seal definitions against the cells of the operation, first block.
    h_defs => consignment!(Cfg {
        blocks: &[BCfg { outs: OUTS2, defs: Defs::Sym(0, 2), wit: MAYWIT, ..GEN }],
        honest: true, ..BASE
    });
    // ... and a later block.
    h_defs_op => consignment!(Cfg {
        blocks: &[GEN, BCfg { n_in: (0, 1), outs: OUTS2, defs: Defs::Sym(0, 2), resend: true, ..OP }],
        honest: true, mem: YES, ..BASE
    });
    // Which seals are open at which point of the consignment.
    h_lineage => consignment!(Cfg {
        blocks: &[
            BCfg { defs: Defs::Exact, ..GEN },
            BCfg { n_in: (0, 2), in_unknown: true, outs: &[&[0], &[2, 0]], defs: Defs::Exact, ..OP },
            BCfg { n_in: (1, 2), in_unknown: true, outs: &[&[]], resend: true, ..OP },
        ],
        honest: true, mem: YES, ..BASE
    });
    // Symbolic definitions, then consumption.
    h_symflow => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], defs: Defs::Sym(0, 2), wit: MAYWIT, ..GEN },
            BCfg { n_in: (1, 2), in_pos: 3, outs: &[&[]], ..OP },
        ],
        mem: YES, ..BASE
    });
    // Seal closing.
    h_closing => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], defs: Defs::Exact, wit: MAYWIT, ..GEN },
            BCfg { n_in: (0, 2), outs: &[&[2, 0]], wit: MAYWIT, ..OP },
            BCfg { n_in: (1, 2), outs: &[&[]], wit: MAYWIT, ..OP },
        ],
        mem: YES, ..BASE
    });
    // Witness-relative seals over several witnesses, blocks without one and repeated blocks.
    h_relative => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[2], &[0]], wit: MAYWIT, ..GEN },
            BCfg { n_in: (0, 1), in_pos: 1, outs: &[&[2], &[0, 2]], wit: MAYWIT, ..OP },
            BCfg { n_in: (0, 1), outs: &[&[2]], wit: MAYWIT, resend: true, ..OP },
            BCfg { n_in: (1, 1), outs: &[&[]], wit: WIT, ..OP },
        ],
        mem: YES, ..BASE
    });
    // Validation of new operations.
    h_validate => consignment!(Cfg {
        blocks: &[
            BCfg { calls: &[0, 1, 3], n_imm: (0, 1), ..GEN },
            BCfg { cids: &[0, 1, 2], calls: &[0, 1, 3], n_in: (0, 2), n_imm: (0, 1), outs: &[&[0]], ..OP },
            BCfg { end: true, cids: &[0, 2], calls: &[0, 1], n_in: (0, 1), outs: &[&[]], resend: true, ..OP },
        ],
        honest: true, ..BASE
    });
    // The parts of an operation which only its validation looks at.
    h_fields => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], defs: Defs::All, wit: MAYWIT, fields: true, ..GEN },
            BCfg { n_in: (0, 1), outs: &[&[2]], defs: Defs::Exact, fields: true, ..OP },
            BCfg { outs: &[&[]], ..OP },
        ],
        honest: true, mem: YES, ..BASE
    });
    // Locks of cells, and what is in them.
    h_locks => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], locks: &[0, 3, 4], state: true, wit: WIT, ..GEN },
            BCfg { calls: &[0, 2], n_in: (1, 2), outs: &[&[], &[0]], locks: &[0, 5], state: true, ..OP },
        ],
        cells: true, honest: true, mem: YES, ..BASE
    });
    h_locks2 => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0]], locks: &[0, 1, 2, 3], wit: WIT, ..GEN },
            BCfg { n_in: (0, 1), in_pos: 1, outs: &[&[0]], locks: &[0, 2, 3, 4, 5], resend: true, ..OP },
            BCfg { n_in: (1, 2), in_pos: 1, calls: &[0, 2], outs: &[&[]], wit: WIT, state: true, ..OP },
        ],
        cells: true, honest: true, mem: YES, ..BASE
    });
    h_locked_defs => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2], &[1]], locks: &[0, 3], defs: Defs::Sym(0, 2), wit: MAYWIT, state: true, ..GEN },
        ],
        cells: true, honest: true, mem: YES, ..BASE
    });
    // Many cells, definitions and inputs.
    h_wide => consignment!(Cfg { special: Some(wide), honest: true, mem: YES, known: NO, ..BASE });
    // Many operations.
    h_long => consignment!(Cfg { special: Some(long), honest: true, mem: YES, known: NO, ..BASE });
    // Reading: ends and failures at every point.
    h_stream => consignment!(Cfg {
        blocks: &[
            BCfg { end: true, broken: true, defs: Defs::Exact, ..GEN },
            BCfg { end: true, broken: true, n_in: (0, 1), defs: Defs::Exact, wit: MAYWIT, ..OP },
            BCfg { end: true, broken: true, n_in: (0, 1), defs: Defs::Exact, wit: MAYWIT, ..OP },
            BCfg { end: true, broken: true, n_in: (0, 0), outs: &[&[]], wit: NOWIT, ..OP },
        ],
        honest: true, mem: YES, ..BASE
    });
    // The same consignment twice.
    h_twice => consignment!(Cfg {
        blocks: &[
            BCfg { end: true, defs: Defs::Exact, ..GEN },
            BCfg { end: true, n_in: (0, 1), outs: &[&[0], &[2]], defs: Defs::Exact, wit: MAYWIT, resend: true, ..OP },
            BCfg { end: true, n_in: (0, 1), outs: &[&[0]], wit: MAYWIT, resend: true, ..OP },
        ],
        twice: true, ..BASE
    });
    // Interrupted and read again.
    h_resume => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0]], defs: Defs::Exact, ..GEN },
            BCfg { cids: &[0, 2], n_in: (0, 1), outs: &[&[0]], wit: MAYWIT, ..OP },
            BCfg { end: true, calls: &[0, 1], n_in: (0, 1), outs: &[&[]], wit: MAYWIT, resend: true, ..OP },
        ],
        mem: YES, resume: true, ..BASE
    });
    h_resume2 => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], defs: Defs::Exact, wit: MAYWIT, ..GEN },
            BCfg { n_in: (0, 1), outs: &[&[0], &[2]], wit: MAYWIT, resend: true, ..OP },
            BCfg { n_in: (0, 2), outs: &[&[]], wit: MAYWIT, ..OP },
        ],
        honest: true, mem: YES, resume: true, ..BASE
    });
    // One consignment after another.
    h_then => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0]], defs: Defs::Exact, ..GEN },
            BCfg { n_in: (0, 1), outs: &[&[2]], wit: MAYWIT, ..OP },
        ],
        then: &[
            BCfg { outs: &[&[0]], resend: true, ..GEN },
            BCfg { n_in: (0, 1), in_unknown: true, outs: &[&[2]], wit: MAYWIT, resend: true, ..OP },
            BCfg { n_in: (1, 1), in_unknown: true, outs: &[&[]], resend: true, ..OP },
        ],
        mem: YES, ..BASE
    });
    // Rejections as text.
    h_text => consignment!(Cfg {
        blocks: &[
            BCfg { broken: true, cids: &[2, 1], outs: &[&[0]], defs: Defs::Wrong, calls: &[0, 1, 3], n_in: (0, 1), in_unknown: true, ..GEN },
            BCfg { n_in: (0, 1), in_unknown: true, wit: MAYWIT, cids: &[0, 2], outs: &[&[]], ..OP },
        ],
        text: true, ..BASE
    });
    // The bitcoin protocol.
    h_btc_resolve => crate::bitcoin::resolution();
    h_btc_token => crate::bitcoin::tokens();
    h_btc_one => crate::bitcoin::consignment(1);
    h_btc_two => crate::bitcoin::consignment(2);
    // Blocks as data.
    h_codec_round => crate::codec::round(false, 3);
    h_codec_rich => crate::codec::round(true, 1);
    h_codec_tail => crate::codec::bytes(0);
    h_codec_tail2 => crate::codec::bytes(1);
    h_codec_raw => crate::codec::raw();
    h_codec_copy => crate::codec::copies();
    h_serde => crate::codec::serial();
    h_codec_wide => crate::codec::wide(false);
    h_serde_wide => crate::codec::wide(true);
    // Larger, for the thorough tier.
    h_defs3 => consignment!(Cfg {
        blocks: &[BCfg { outs: OUTS3, defs: Defs::Sym(0, 3), wit: MAYWIT, ..GEN }],
        honest: true, ..BASE
    });
    h_lineage_t => consignment!(Cfg {
        blocks: &[
            BCfg { defs: Defs::Exact, ..GEN },
            BCfg { n_in: (0, 2), in_unknown: true, outs: &[&[0], &[2, 0]], defs: Defs::Exact, ..OP },
            BCfg { n_in: (0, 2), outs: &[&[2]], defs: Defs::Exact, resend: true, ..OP },
            BCfg { n_in: (1, 2), outs: &[&[]], resend: true, ..OP },
        ],
        honest: true, mem: YES, ..BASE
    });
    h_closing_t => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], defs: Defs::Exact, wit: MAYWIT, ..GEN },
            BCfg { n_in: (0, 2), outs: &[&[2, 0]], wit: MAYWIT, ..OP },
            BCfg { n_in: (0, 2), outs: &[&[2]], wit: MAYWIT, ..OP },
            BCfg { n_in: (1, 2), outs: &[&[]], wit: MAYWIT, ..OP },
        ],
        mem: YES, ..BASE
    });
    h_validate_t => consignment!(Cfg {
        blocks: &[
            BCfg { calls: &[0, 1, 3], n_imm: (0, 1), ..GEN },
            BCfg { cids: &[0, 1, 2], calls: &[0, 1, 2, 3], n_in: (0, 2), n_imm: (0, 2), outs: &[&[0]], ..OP },
            BCfg { end: true, cids: &[0, 2], calls: &[0, 1], n_in: (0, 1), outs: &[&[]], resend: true, ..OP },
        ],
        honest: true, ..BASE
    });
    h_history => consignment!(Cfg {
        blocks: &[
            BCfg { outs: &[&[0, 2]], wit: MAYWIT, ..GEN },
            BCfg { n_in: (0, 1), outs: &[&[2]], wit: MAYWIT, ..OP },
            BCfg { n_in: (0, 1), outs: &[&[0]], wit: MAYWIT, resend: true, ..OP },
            BCfg { n_in: (0, 1), outs: &[&[2]], wit: MAYWIT, resend: true, ..OP },
            BCfg { n_in: (1, 1), outs: &[&[]], wit: MAYWIT, ..OP },
        ],
        honest: true, mem: YES, ..BASE
    });
    h_twice_t => consignment!(Cfg {
        blocks: &[
            BCfg { end: true, outs: &[&[0, 2]], defs: Defs::Exact, wit: MAYWIT, ..GEN },
            BCfg { end: true, n_in: (0, 1), outs: &[&[0], &[2]], defs: Defs::Exact, wit: MAYWIT, resend: true, ..OP },
            BCfg { end: true, n_in: (0, 1), outs: &[&[0], &[2]], wit: MAYWIT, resend: true, ..OP },
            BCfg { end: true, n_in: (0, 1), outs: &[&[]], wit: MAYWIT, resend: true, ..OP },
        ],
        twice: true, ..BASE
    });
    h_codec_raw_t => crate::codec::raw_long();
    h_btc_two_t => crate::bitcoin::consignment_free(2);
}
