PROPERTY = 'C07'
NEEDS = 'someone else submits a Withdraw naming the recorded owner, who did not sign'
BREAKS = 'withdraw no longer requires the signature of the recorded owner'
ALSO = ['C24']
EDITS = [
    ('solana-program/src/instructions/withdraw.rs',
     '    assert_account_role(\n        unstaker_account,\n        &[AccountRole::Signer, AccountRole::Writable],\n    )?;\n',
     '    assert_account_role(unstaker_account, &[AccountRole::Writable])?;\n'),
]
DEMO = """
r, a = run("withdraw", over={"unstaker@signer": 0})
check(r.kind == "err", "withdraw without the owner's signature is refused")
r, a = run("withdraw")
check(r.kind == "ok", "with it, it pays")
"""
