"""What each property's proof consists of: the functions whose contracts state it (roots), the lemma
files the statement uses, and the theorem file (verus/thm_*.rs) where the property is a lemma over
those contracts."""

OPS = ['add_to', 'sub_to', 'mul_to', 'div_to', 'rem_to']
TEXT_LEN = 'a text is shorter than 2^62 bytes (no 64-bit address space holds more)'
MAKES = ['FixedDecimal::' + o for o in OPS + ['round', 'round_to', 'from_bytes_str', 'from_ascii_str', 'zero', 'one', 'set_zero', 'set_one', 'set_pos', 'set_neg']] + [
    'FromStr::from_str', 'From<u64>::from', 'From<i64>::from'] + [t + '::' + t.lower() + ':any' for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem')]

# stronger: the contract of these functions asks for more than the property does (hash: one particular sequence
# of writes), so that failing it does not refute the property
# own: where set, only failures in these functions are failures of the property itself; a function they
# call failing its own contract is another property's matter (and is reported there)
PROPS = {
    'C01': dict(roots=MAKES, lemmas=['arith_spec', 'fmt_spec'], thm=['thm_c01'], surface=True,
                theorems=['thm_' + o for o in ('add', 'sub', 'mul', 'div', 'rem', 'ops', 'round', 'round_to', 'parse', 'parse_str', 'from_str', 'from_int', 'make', 'set', 'valid')],
                assumptions=[TEXT_LEN, 'fields are not reachable from outside the crate (they are pub(crate))']),
    'C02': dict(roots=['FixedDecimal::add_to'], theorems=['add_to (ensures add_post)']),
    'C03': dict(roots=['FixedDecimal::sub_to'], theorems=['sub_to (ensures sub_post)']),
    'C04': dict(roots=['FixedDecimal::mul_to'], theorems=['mul_to (ensures mul_post)']),
    'C05': dict(roots=['FixedDecimal::div_to'], theorems=['div_to (ensures div_post)', 'div_abs (ensures div_abs_post)', 'units_greater_equal']),
    'C06': dict(roots=['FixedDecimal::rem_to'], theorems=['rem_to (ensures rem_post)', 'rem_abs (ensures rem_abs_post)', 'units_greater_equal', 'cmp_abs_lsu']),
    'C07': dict(roots=['Ord::cmp', 'PartialOrd::partial_cmp', 'PartialEq::eq'], impls=['Ord', 'PartialOrd', 'PartialEq'],
                lemmas=['cmp_spec'], theorems=['cmp (ensures cmp_val)', 'eq', 'partial_cmp', 'thm_total_order']),
    'C08': dict(stronger=['Hash::hash'], roots=['Hash::hash', 'PartialEq::eq'], impls=['Hash', 'PartialEq'], lemmas=['hash_spec', 'cmp_spec'], thm=['thm_c08'], theorems=['hash (ensures log == hash_log)', 'eq', 'thm_equal_hash', 'thm_eq_hash']),
    'C09': dict(roots=['FixedDecimal::from_bytes_str', 'FixedDecimal::from_ascii_str', 'FromStr::from_str'], impls=['FromStr'], lemmas=['parse_spec'], thm=['thm_c09'],
                theorems=['from_bytes_str', 'from_ascii_str', 'from_str', 'thm_grammar', 'thm_parse'], assumptions=['a text is shorter than 2^62 bytes (no 64-bit address space holds more)']),
    'C11': dict(roots=['FixedDecimal::to_string', 'FixedDecimal::from_ascii_str', 'FixedDecimal::from_bytes_str'], lemmas=['arith_spec', 'text_spec', 'parse_spec'], thm=['thm_c10', 'thm_c09', 'thm_c11'],
                theorems=['thm_print_parse', 'thm_reparse'], assumptions=['a text is shorter than 2^62 bytes (no 64-bit address space holds more)', 'memory for the text can be allocated']),
    'C10': dict(roots=['FixedDecimal::append_str_buf', 'FixedDecimal::to_string'], lemmas=['arith_spec', 'text_spec'], thm=['thm_c10'],
                theorems=['append_str_buf', 'to_string', 'thm_append', 'thm_string', 'thm_digits'], assumptions=['memory for the text can be allocated']),
    'C12': dict(roots=['FixedDecimal::round', 'FixedDecimal::round_to'], thm=['thm_c12'], theorems=['round (ensures round_post)', 'round_to (ensures round_post)', 'thm_nearest', 'thm_same', 'thm_equal', 'thm_keeps']),
    'C13': dict(roots=['From<u64>::from', 'From<i64>::from'], lemmas=['int_spec'], thm=['thm_c13'],
                theorems=['thm_from_u64', 'thm_from_i64']),
    'C14': dict(roots=['FixedDecimal::as_i64', 'FixedDecimal::as_u64', 'From<u64>::from', 'From<i64>::from'], lemmas=['int_spec'], thm=['thm_c14'], theorems=['as_i64', 'as_u64', 'thm_roundtrip_i64', 'thm_roundtrip_u64']),
    'C15': dict(roots=['FixedDecimal::' + o for o in ('add_to', 'sub_to', 'mul_to', 'div_to', 'rem_to', 'round_to', 'from_bytes_str', 'from_ascii_str')], thm=['thm_c15'],
                theorems=['thm_' + o for o in ('add', 'sub', 'mul', 'div', 'rem', 'round', 'parse')], assumptions=['a text is shorter than 2^62 bytes (no 64-bit address space holds more)']),
    'C16': dict(roots=[t + '::' + t.lower() + v for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for v in ('', ':any')], impls=['Add', 'Sub', 'Mul', 'Div', 'Rem'], thm=['thm_c16'],
                own=[t + '::' + t.lower() + v for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for v in ('', ':any')] + ['module theorems'],
                theorems=['thm_' + o + v for o in ('add', 'sub', 'mul', 'div', 'rem') for v in ('', '_panics')]),
    'C17': dict(roots=['FixedDecimal::' + n for n in ('is_zero', 'is_neg', 'set_neg', 'set_pos', 'set_zero', 'set_one', 'zero', 'one', 'intg', 'frac', 'intg_units', 'frac_units')],
                lemmas=['arith_spec'], thm=['thm_c17'],
                theorems=['thm_is_zero', 'thm_set_neg', 'thm_set_pos', 'thm_constants', 'thm_counts']),
    'C18': dict(roots=None, surface=True, thm=[], theorems=['every function of the crate: no panic, no overflow, no access out of bounds, no failed assertion, termination', 'to_string (ASCII text)'],
                assumptions=[TEXT_LEN, 'memory for the text can be allocated']),
    'C19': dict(roots=['FixedDecimal::' + o for o in OPS + ['round_to', 'round']], thm=['thm_c19'], lemmas=['fmt_spec'],
                theorems=['thm_add_scale', 'thm_sub_scale', 'thm_mul_scale', 'thm_div_scale', 'thm_rem_scale', 'thm_round_scale']),
}

TRUSTED = [
    'Verus 0.2026.09.13 (verification condition generation, vstd specifications of core/std) and its SMT solver Z3',
    'rustc: the verified functions are compiled from the same source text by the ordinary compiler',
    'the extraction in tool/ (lexer, desugaring rules listed under rules_applied, placement of proof text); it drops comments, attributes, visibility, panic/assert message arguments and Display text',
    'derive(Clone) on FixedDecimal copies its fields',
]
