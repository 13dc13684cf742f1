PROPERTY = 'C05'
NEEDS = 'a withdraw whose record address receives lamports again in the same transaction; the index is then used again'
BREAKS = 'a closed record stays owned by the program: the address is neither a record nor free'
ALSO = ['C21']
EDITS = [
    ("solana-program/src/util/account.rs", """    account_to_close.resize(0)?;
    unsafe {
        account_to_close.assign(&SYSTEM_PROGRAM_ID);
    }
""", """    account_to_close.resize(0)?;
""")]
DEMO = """
r, a = run("withdraw")
check(r.kind == "ok" and a.owner("pending") == le(sol.SYSTEM) and a.lamports("pending") == 0, "the record is handed back to the system program")
"""
