KIND = "js"
PROPERTY = 'C27'
NEEDS = 'an explicit search limit of zero and a staker with withdrawals'
BREAKS = 'a limit of zero lists the first fifteen withdrawals'
EDITS = [
    ('js-client/src/utils/index.ts',
     "    Array.from({ length: maxWithdrawalsToSearch }, (_, index) =>",
     "    Array.from({ length: maxWithdrawalsToSearch || DEFAULT_MAX_WITHDRAWALS_TO_SEARCH }, (_, index) =>"),
]
DEMO = """
st = key(1)
led = ledger([entry(recaddr(st, i), 1, record(i, st)) for i in range(3)], st)
for mx in (3, 2, 1, 0):
    k, out = call("fetched", led, 2 + 16 * (mx + 1))
    check(k == 0 and out[:8] == u64(mx), "limit %d" % mx)
"""
