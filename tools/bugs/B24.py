KIND = "client"
PROPERTY = 'C16'
NEEDS = 'two remaining accounts added one at a time to a withdraw builder'
BREAKS = 'the builder keeps only the last remaining account added'
EDITS = [
    ('rust-client/src/generated/instructions/withdraw.rs',
     '        self.__remaining_accounts.push(account);\n',
     '        self.__remaining_accounts = vec![account];\n'),
]
DEMO = """
k, v, out = call("ix_withdraw", ix(u64(1), 8), 9)
check(k == "ret" and v == 0 and out[32:40] == u64(10), "both remaining accounts are listed")
"""
