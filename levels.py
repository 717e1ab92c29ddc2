_P = 'Deductive: the functions listed in the evidence are proved against their contracts on the LLVM IR of the current tree, for all inputs within the stated preconditions (store invariant), partial correctness; trusts clang, the VC generator dv/, z3/cvc5 and the listed lemmas. '
_B = 'Run-time contract checking of the real code over generated histories adds the rest: bounded, not proved.'
for _i in ('C09', 'C10'): LEVEL[_i] = 'proof'; NOTE[_i] = _P + 'All functions of the property are under contract.'
NOTE['C11'] = _P + 'Covers the mapping functions and the order and group-count lemmas; key comparison operators are checked at run time (bounded).'
NOTE['C06'] = NOTE['C14'] = _P + 'Covers point and range queries of both filters and of the store, and the key mapping; the boundary tree is assumed to be an ordered map and the store invariant to hold. ' + _B
NOTE['C13'] = NOTE['C15'] = _P + 'Covers the queries, InsertSimple and Delete of both filters and their uint64_t and string_view forms. ' + _B
for _i in ('C01', 'C08', 'C12', 'C02', 'C03', 'C04', 'C05', 'C07'): NOTE[_i] = 'Deductive for the leaf and query functions listed in the evidence (see DESIGN.md). The mutating operations themselves: run-time contract checking of the real code over generated histories, bounded, not proved.'
NOTE['C16'] = 'Run-time contract checking of both tree variants against std::map: bounded, not proved.'
