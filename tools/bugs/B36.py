KIND = "js"
PROPERTY = 'C27'
NEEDS = 'a staker who closed a withdrawal with a lower index than one still open'
BREAKS = 'withdrawals after a gap in the indices are not listed'
EDITS = [
    ('js-client/src/utils/index.ts',
     "    .filter((account): account is NonNullable<typeof account> => Boolean(account))",
     """    .filter(
      (account, index, all): account is NonNullable<typeof account> =>
        Boolean(account) && (index < 2 || Boolean(all[index - 1]) || Boolean(all[index - 2]))
    )"""),
]
DEMO = """
st = key(1)
def run(ix):
    k, out = call("fetched", ledger([entry(recaddr(st, i), 1, record(i, st)) for i in ix], st), 2)
    check(k == 0 and out[:8] == u64(len(ix)), "records %s" % (ix,))
run((0, 1, 2))
run((0, 2, 4))
run((1,))
run((0, 3))
"""
