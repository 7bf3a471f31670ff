"""What decides each property: engines, harness modules, hooks."""
KANI = {  # property: (module, hooks)
    'C01': ('c01', ['key_iter']),
    'C02': ('c02', []),
    'C03': ('c03', []),
    'C04': ('c04', []),
    'C05': ('c05', []),
    'C06': ('c06', []),
    'C07': ('c07', []),
    'C15': ('c15', []),
    'C22': ('c22', []),
    'C23': ('c23', ['lie', 'hall_key']),
    'C24': ('c24', ['lie']),
    'C25': ('c25', ['lie']),
    'C26': ('c26', ['lie', 'hall_set']),
    'C27': ('c27', []),
    'C31': ('c31', ['lie']),
}
GENERATED = ('C31',)   # the harness crate is made from /repo's sources by conc/gen.py
OPTIONAL_HOOKS = {'C01': ['key_iter']}
SOLVER = {'C22': 'cvc5'}   # default: CaDiCaL
SYM = {p: (p.lower(), []) for p in ('C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C27', 'C28')}
SYM['C29'] = ('c29', ['borrowed'])


def assumptions(prop):
    r = []
    if prop in KANI:
        r.append('Kani/CBMC models the compiled MIR faithfully; allocation never fails; each generic function is checked at '
                 'the alphabet sizes and word lengths named by the harnesses, within their unwind bounds (checked by unwinding assertions).')
    if prop in GENERATED:
        r.append('The locks, the hash map and Arc used by src/lie are replaced by the stand-ins of conc/vmodel.rs (same interface; Arc never '
                 'frees, a lock operation is a scheduling point); threads are sequentialised: at each lock operation whole other requests may run, nested.')
    if prop in SYM:
        r.append('The coefficient type is a field: terms are compared as rational functions over the reals by z3.')
    return r


LEVEL_NOTE = {}
HOOK_COMMITS = ['41ad8d5af6fef4aac733b96b45846b8930e6f32b', 'd72fa2a45a781d92d9602631f12c33fc25cfa6d9']
NOT_APPLICABLE = {
    'C30': 'Growing the Hall set is not implemented: HallSet::grow_up is todo!() and no code ever adds an element, so there is no code to encode.',
    'C32': 'Rounding-error bounds of whole series in floating point: symbolic-by-symbolic floating-point multiplication chains are beyond the SAT/SMT back ends here; the exact-arithmetic statements (C13-C18) and single operations (C22) are decided instead.',
}
