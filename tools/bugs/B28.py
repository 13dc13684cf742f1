KIND = "client"
PROPERTY = 'C19'
NEEDS = 'the default search with the last record at index 14'
BREAKS = 'the default search stops one index early'
EDITS = [
    ('rust-client/src/utils/mod.rs',
     '''    for i in 0..max_withdrawals_to_search {
        let (address, _) = find_pending_withdraw_pda(staker, &i)?;''',
     '''    for i in 0..max_withdrawals_to_search.min(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH - 1) {
        let (address, _) = find_pending_withdraw_pda(staker, &i)?;'''),
]
DEMO = """
me = key(9)
rec = bytes([2, 0, 0, 0, 0, 0, 255, 14]) + me + u64(10, 20) + bytes(968)
k, v, out = call("fetch", ledger([entry(sol.pending_pda(me, 14)[0], 1, rec)], me), 2)
check(k == "ret" and v == 0 and out[1024:1032] == u64(1), "the record at index 14 is found by default")
"""
