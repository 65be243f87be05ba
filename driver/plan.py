"""Which entry points decide which property, what each explores and what it must reach."""

SAMPLES = 60
MAX_STEPS = 20_000_000

ENTRIES = {
    'h_first': dict(
        what='first block only: contract id = ledger\'s / codex id / foreign / all 32 bytes symbolic; method passing, failing or '
             'missing; 0-1 inputs, 0-1 reads; outputs none, absolute or relative; 0-1 seal definitions with symbolic position '
             '(u16) and seal (u64, bool); with and without witness (symbolic id); end or failure of the stream; symbolic ledger '
             'knowledge and memory; symbolic seal-protocol verdicts',
        covers='block0 closing-client closing-published err-closing err-codex err-defs err-stream err-unknown err-vm known-op ok partial-defs unknown-op vm-nocall vm-read vm-script'.split()),
    'h_defs': dict(
        what='first block with every list of 0-2 outputs over 2 absolute and 1 relative seal, 0-2 definitions with symbolic '
             'position and seal',
        covers='block0 err-defs known-op ok partial-defs unknown-op'.split()),
    'h_defs_op': dict(
        what='the same for the second block, with 0-1 inputs closed by a witness, or repeating the first',
        covers='applied block1 err-defs ok partial-defs partial-effects'.split()),
    'h_defs3': dict(
        what='first block with 2-3 outputs, some of them equal, 0-3 definitions with symbolic position and seal, with and '
             'without witness',
        covers='block0 err-defs ok partial-defs'.split()),
    'h_symflow': dict(
        what='0-2 symbolic definitions in the first block, then 1-2 inputs among 3 of its positions',
        covers='abs-closed applied block1 closing-client closing-published closing-seal err-closing err-defs err-unknown ok rel-closed'.split()),
    'h_lineage': dict(
        what='3 blocks, up to 2 inputs each among all earlier cells and an unseen one, repeated blocks, cells with and without '
             'disclosed definition',
        covers='abs-closed applied block2 err-unknown known-op ok partial-defs partial-effects rel-closed unknown-op'.split()),
    'h_closing': dict(
        what='3 blocks, 0-2 inputs, optional witnesses with symbolic ids, symbolic verdict per (seal, message, witness), '
             '(client witness, message) and (published witness, proof)',
        covers='abs-closed applied block2 closing-client closing-published closing-seal err-closing err-nowitness err-unknown ok rel-closed'.split()),
    'h_relative': dict(
        what='4 blocks with absolute and relative seals, with and without witness (symbolic ids), repeated blocks with another '
             'witness; symbolic verdicts',
        covers='rel-dead rel-closed abs-closed block3 closing-seal err-unknown known-op ok'.split()),
    'h_history': dict(
        what='5 blocks of one cell each, absolute or relative, optional inputs among all earlier cells, optional witnesses with '
             'symbolic ids, repeated blocks; honest seal protocol',
        covers='abs-closed rel-closed rel-dead applied block4 err-nowitness err-unknown known-op ok'.split()),
    'h_lineage_t': dict(
        what='4 blocks otherwise as in h_lineage',
        covers='abs-closed applied block3 err-unknown known-op ok partial-defs partial-effects rel-closed unknown-op'.split()),
    'h_closing_t': dict(
        what='4 blocks otherwise as in h_closing',
        covers='abs-closed applied block3 closing-client closing-published closing-seal err-closing err-nowitness err-unknown ok rel-closed'.split()),
    'h_validate_t': dict(
        what='3 blocks as in h_validate, with up to 2 reads in the second and a third way for its method to fail',
        covers='applied block2 err-unknown err-vm known-op ok unknown-op vm-contract vm-input vm-nocall vm-read vm-script'.split()),
    'h_twice_t': dict(
        what='up to 4 blocks otherwise as in h_twice',
        covers='twice block3 err-closing err-vm rel-closed'.split()),
    'h_validate': dict(
        what='3 blocks: contract id own / codex / foreign, method passing / failing / missing, 0-2 inputs, 0-1 reads (of the block '
             'before or of an unseen operation), symbolic ledger knowledge and memory, repeated blocks',
        covers='applied block2 err-unknown err-vm known-op ok unknown-op vm-contract vm-input vm-nocall vm-read vm-script'.split()),
    'h_fields': dict(
        what='3 blocks whose method, nonce, witness, cell and global data are symbolic where only validation looks at them; '
             '0-1 inputs, 0-2 cells, all definitions or none; honest seal protocol',
        covers='applied block2 err-unknown err-vm known-op ok partial-defs rel-closed rel-dead vm-nocall vm-script'.split()),
    'h_locks': dict(
        what='2 blocks whose cells hold any state, locked by nothing, a failing script or one which wants a secret from the '
             'spending input (symbolic, or none), the second with a method which passes or which wants its first cell to hold '
             'what its first input held, 1-2 inputs',
        covers='applied block1 err-unknown err-vm known-op ok unknown-op vm-lock vm-script'.split()),
    'h_locks2': dict(
        what='3 blocks, 0-2 inputs, repeated blocks, as in h_locks, cells locked also by a passing script, a missing one, or '
             'without script',
        covers='applied block2 err-unknown err-vm known-op ok unknown-op vm-lock vm-script'.split()),
    'h_locked_defs': dict(
        what='first block with 1-2 cells with any state, locked or not, 0-2 definitions with symbolic position and seal',
        covers='block0 err-defs known-op ok partial-defs unknown-op'.split()),
    'h_wide': dict(
        what='a first operation with 260 cells and definitions, one of them missing, wrong or another\'s, or a single one, at '
             'places around 255, or exactly 256; a second one with 260 cells and definitions and up to 260 inputs, one of them doubled or not '
             'there, and a third spending one of either',
        max_steps=1_000_000_000, covers='abs-closed rel-closed applied block2 err-defs err-unknown ok partial-defs partial-effects'.split()),
    'h_long': dict(
        what='262 blocks, each spending the cell of the one before; at one of 12 places (1, 2, 64, around 128 and 256, the '
             'last) the stream fails or ends, a cell spent before is spent again, the script fails, the contract is another, '
             'the definition is wrong, the witness is missing or closes nothing, or a cell of the first block is spent too',
        max_steps=1_000_000_000, covers='applied block5+ closing-seal err-closing err-defs err-nowitness err-stream err-unknown err-vm ok rel-closed'.split()),
    'h_stream': dict(
        what='up to 4 blocks, end or failure (symbolic code) at every point',
        covers='block3 err-nowitness err-stream err-unknown ok partial-effects'.split()),
    'h_twice': dict(
        what='up to 3 blocks with symbolic verdicts, knowledge and memory, processed twice when accepted',
        covers='twice block2 err-closing err-vm rel-closed'.split()),
    'h_resume': dict(
        what='up to 3 blocks, the stream failing after the first, second or last of them, then read in full, against read in full on a ledger without the part; '
             'foreign contract, failing method, repeated blocks, symbolic verdicts and knowledge',
        covers='resumed resumed-ok resumed-err resumed-rest'.split()),
    'h_resume2': dict(
        what='the same with 2 cells, absolute or relative, in the first block, 0-2 inputs in the last, and a witness with the first '
             'block or not; honest seal protocol',
        covers='resumed resumed-ok resumed-err resumed-rest'.split()),
    'h_then': dict(
        what='two consignments, for the same ledger or two of them: 2 blocks, accepted or not, then 3 blocks, each new or one of the blocks before; '
             'inputs also among the cells of the first consignment; symbolic verdicts and knowledge',
        covers='then then-ok then-another block2 err-closing err-unknown err-nowitness err-vm vm-input known-op unknown-op applied rel-closed abs-closed'.split()),
    'h_text': dict(
        what='2 blocks reaching every kind of rejection, rendered as text',
        covers='text err-closing err-codex err-defs err-nowitness err-stream err-unknown err-vm closing-client closing-published closing-seal'.split()),
    'h_btc_resolve': dict(
        what='bitcoin seal definitions: witness-relative or absolute, fallback or noise, every field (txid, output number, '
             'noise) symbolic; symbolic witness id',
        covers='absolute relative'.split()),
    'h_btc_token': dict(
        what='one and every two bitcoin seal definitions, every field symbolic; SHA-256 uninterpreted (injective)',
        covers='same-def different-defs'.split(), ghost_hashes=True),
    'h_btc_one': dict(
        what='bitcoin: genesis with an absolute and a relative seal (with or without witness transaction), one transfer of '
             'either or both; its transaction has 1-2 inputs with symbolic outpoints, a bundle giving each input no, the right '
             'or a wrong message (or an extra one for a non-existing input), and an opret output with symbolic, wrong or no '
             'commitment',
        covers='accepted not-closed seal-unknown'.split()),
    'h_btc_two': dict(
        what='bitcoin: genesis and two transfers; the first one right, spending a wrong outpoint, or with a wrong message; the '
             'last, of cells of the second operation, of the first, or of both, as in h_btc_one with one symbolic outpoint',
        covers='accepted not-closed seal-unknown'.split()),
    'h_btc_two_t': dict(
        what='bitcoin: genesis and two transfers, the last as in h_btc_one',
        covers='accepted not-closed seal-unknown'.split()),
    'h_codec_round': dict(
        what='blocks with a bare operation (symbolic contract, method, nonce), 0-3 definitions with symbolic positions and '
             'content, optional witness with symbolic content; followed by 3 symbolic bytes; cut at every point',
        covers='decoded prefix-refused with-witness'.split()),
    'h_codec_rich': dict(
        what='blocks whose operation has 0-2 inputs, 0-1 reads, 0-2 owned cells, 0-1 global cells, with symbolic content, 0-1 '
             'definitions, optional witness; followed by 3 symbolic bytes',
        covers='decoded with-witness'.split()),
    'h_codec_tail': dict(
        what='15 arbitrary bytes after a bare operation',
        covers='accepted accepted-defs refused'.split()),
    'h_codec_tail2': dict(
        what='32 arbitrary bytes after a bare operation',
        covers='accepted accepted-defs accepted-witness refused'.split()),
    'h_codec_raw': dict(
        what='92 arbitrary bytes',
        covers='accepted accepted-defs refused'.split()),
    'h_codec_raw_t': dict(
        what='106 arbitrary bytes',
        covers='accepted accepted-defs refused'.split()),
    'h_serde': dict(
        what='blocks with an empty operation or one with 2 inputs, 1 read, 2 owned and 1 global cells, 0-2 definitions and optional '
             'witness, through an in-memory serde format; human-readable: concrete content, otherwise: symbolic content without '
             'state values; each part missing or doubled',
        covers='deserialised with-witness'.split()),
    'h_codec_wide': dict(
        what='blocks with 127, 128, 255, 256, 257 and 300 definitions from position 0 or 200 or up to the last one; the first, '
             'middle or last definition and the witness symbolic, bytes following',
        max_steps=1_000_000_000, covers='copied decoded'.split()),
    'h_serde_wide': dict(
        what='the blocks of h_codec_wide through the serde format',
        max_steps=1_000_000_000, covers='deserialised with-witness'.split()),
    'h_codec_copy': dict(
        what='the blocks of h_codec_rich',
        covers='copied'.split()),
}

_core = ['h_first', 'h_defs', 'h_defs_op', 'h_symflow', 'h_lineage', 'h_closing', 'h_stream', 'h_twice']
_deep = ['h_lineage_t', 'h_closing_t', 'h_twice_t']
PLAN = {
    'P01': dict(quick=['h_first', 'h_stream', 'h_text', 'h_twice', 'h_long'], thorough=['h_validate_t']),
    'P02': dict(quick=_core + ['h_validate', 'h_long', 'h_then'], thorough=_deep + ['h_validate_t']),
    'P03': dict(quick=_core + ['h_defs3', 'h_locked_defs', 'h_wide'], thorough=_deep),
    'P04': dict(quick=_core + ['h_history', 'h_wide', 'h_long', 'h_then'], thorough=_deep),
    'P05': dict(quick=_core + ['h_relative', 'h_long', 'h_then'],
                thorough=_deep + ['h_wide']),
    'P06': dict(quick=_core + ['h_long', 'h_then'],
                thorough=_deep + ['h_history']),
    'P07': dict(quick=['h_relative', 'h_symflow', 'h_lineage', 'h_closing', 'h_twice', 'h_history', 'h_long'], thorough=_deep),
    'P08': dict(quick=_core + ['h_validate', 'h_fields', 'h_locks', 'h_long', 'h_then'], thorough=_deep + ['h_validate_t', 'h_locks2']),
    'P09': dict(quick=_core + ['h_validate', 'h_fields', 'h_long', 'h_then'],
                thorough=_deep + ['h_validate_t', 'h_history']),
    'P10': dict(quick=_core + ['h_validate', 'h_relative', 'h_wide', 'h_long', 'h_then'],
                thorough=_deep + ['h_validate_t', 'h_history', 'h_fields']),
    'P11': dict(quick=_core + ['h_validate', 'h_long', 'h_then'],
                thorough=_deep + ['h_validate_t', 'h_history', 'h_fields']),
    'P12': dict(quick=_core + ['h_long'], thorough=_deep),
    'P13': dict(quick=_core + ['h_validate', 'h_relative', 'h_locked_defs', 'h_wide', 'h_long', 'h_then'],
                thorough=_deep + ['h_validate_t', 'h_locks2', 'h_history', 'h_fields']),
    'P14': dict(quick=_core + ['h_validate', 'h_relative', 'h_text', 'h_long', 'h_btc_one', 'h_codec_tail2', 'h_codec_raw'],
                thorough=_deep + ['h_wide', 'h_history', 'h_fields', 'h_btc_two', 'h_codec_raw_t']),
    'P15': dict(quick=['h_twice'], thorough=['h_twice_t']),
    'P17': dict(quick=_core + ['h_validate', 'h_relative', 'h_locks', 'h_long'],
                thorough=_deep + ['h_validate_t', 'h_history', 'h_locks2']),
    'P18': dict(quick=['h_text']),
    'P19': dict(quick=['h_btc_resolve']),
    'P20': dict(quick=['h_btc_resolve']),
    'P21': dict(quick=['h_btc_token']),
    'P22': dict(quick=['h_btc_one', 'h_btc_two'], thorough=['h_btc_two_t']),
    'P23': dict(quick=['h_codec_round', 'h_codec_rich', 'h_codec_wide']),
    'P24': dict(quick=['h_codec_round', 'h_codec_tail', 'h_codec_tail2', 'h_codec_raw'], thorough=['h_codec_raw_t']),
    'P25': dict(quick=['h_codec_copy', 'h_codec_wide']),
    'P26': dict(quick=['h_serde', 'h_serde_wide']),
    'P27': dict(quick=['h_resume', 'h_resume2']),
}

ASSUMPTIONS = [
    'The seal protocol is an arbitrary one: whether a witness includes a seal over a message, whether a client witness '
    'convolves to a message and whether the published witness commits to the proof are independent symbolic verdicts, '
    'functions of their arguments only. Its definitions commit injectively, resolve and convert as documented.',
    'The ledger is honest: it reports what was applied to it; its initial knowledge and memory are symbolic.',
    'SHA-256 is collision-free: computed when its input is concrete, otherwise an injective uninterpreted function; results '
    'of commitment computations by dependencies on fully concrete values are computed once and reused.',
    'The code executed is the LLVM IR rustc emits for /repo (release profile, opt-level 1, overflow checks on, fat LTO with '
    'std and dependencies); memory allocation does not fail.',
    'z3 answers are trusted (the thorough tier has cvc5 decide the same queries); the executor is validated on every run by '
    'native replays of explored paths.',
]
OUTSIDE = [
    'consignments with more blocks, inputs, outputs or definitions per block than stated per entry',
    'outside h_fields and h_locks*, the parts of an operation which the code of /repo does not look at (cell data, nonces, locks) are concrete',
    'AluVM scripts other than an accepting one, a failing one, one comparing the state of an input and an output, and one comparing the witness of an input',
]
