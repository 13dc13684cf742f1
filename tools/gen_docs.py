#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = "solana-program/src/"
I = SP + "instructions/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=(), level=None, technique=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, level=level, technique=technique, na=na))


SYM = "symbolic execution of the program's LLVM IR (rustc output of the real crate) + SMT (z3)"
CHAIN_NOTE = ("Every path of the compiled program is decided by the solver for all inputs within the bounds in the evidence; "
              "trusts the account/CPI model of engine/svm.py (SPL Token, System, ATA, rent, clock), rustc and the IR "
              "translation (replayed natively), and the data invariant that C08 shows to be preserved.")
POOL = [("vault amount", "ORCA held by the vault", "SPL token account of the state PDA"),
        ("escrowed amount", "ORCA owed to pending withdrawals", SP + "state/state.rs"),
        ("xORCA supply", "claims on the pool", "SPL mint")]

P("C01", "Redemption price never falls",
  "No successful Stake, Unstake, Withdraw or Set lowers the redemption price (unescrowed ORCA + 100) / (xORCA supply + 100) "
  "of a pool whose vault covers escrow and supply, whatever the amounts and account contents. The vault keeps covering the escrow.",
  ["inputs", "histories"], "every pool state, amount, account list (including aliased accounts) and signer set",
  "Rounding direction is checked on a few amounts; a wrong rounding or a wrong operand shows only at particular ratios.",
  [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", SP + "util/math.rs"],
  [("floor division with virtual offsets", SP + "util/math.rs")], POOL, CHAIN_NOTE, SYM)
P("C02", "Round trips and splitting never profit",
  "Staking and at once unstaking what was minted returns at most the staked ORCA; unstaking and restaking the proceeds "
  "returns at most the burned xORCA; and splitting one stake or unstake into two yields in total at most what one yields.",
  ["histories", "inputs"], "every pool with 0 < supply <= unescrowed ORCA and every pair of 64-bit amounts",
  "The tests use a few round amounts; profit by rounding appears only for particular ratios and sequences.",
  [I + "stake.rs", I + "unstake.rs", SP + "util/math.rs"], [("floor division with virtual offsets", SP + "util/math.rs")],
  POOL, CHAIN_NOTE + " Two instructions are composed symbolically: the second runs on the first one's symbolic post-state.", SYM)
P("C03", "Stake moves exactly the documented amounts",
  "A successful Stake of x moves exactly x ORCA from the staker's account to the vault and mints to the staker exactly "
  "floor(x*(supply+100)/(unescrowed+100)) xORCA, at least 1 (x itself if supply or unescrowed ORCA is zero), and changes "
  "nothing else in any account.",
  ["inputs"], "every amount, balance, account contents and account aliasing",
  "Unit tests sample a handful of amounts and one account layout; nothing checks the whole post-state.",
  [I + "stake.rs", SP + "util/math.rs"], [("conversion and two CPIs", I + "stake.rs")], POOL, CHAIN_NOTE, SYM)
P("C04", "Unstake burns, escrows and records exactly",
  "A successful Unstake of x burns exactly x xORCA of the caller, adds w = floor(x*(unescrowed+100)/(supply+100)) >= 1 to the "
  "escrow, and creates at the caller's address for that index a record holding w, the caller, the index and a maturity of "
  "exactly now + cooldown. Nothing else in any account changes apart from the rent the caller pays.",
  ["inputs"], "every amount, index, clock, cooldown, balance, account contents and aliasing",
  "Tests sample single amounts and times; overflow, rounding and field placement need all values.",
  [I + "unstake.rs", SP + "util/math.rs", SP + "state/pending_withdraw.rs"], [("record creation", I + "unstake.rs")], POOL, CHAIN_NOTE, SYM)
P("C05", "Withdraw pays exactly the matured record once",
  "A successful Withdraw happens only at or after the record's maturity, moves exactly the recorded ORCA from the vault to the "
  "recorded owner, lowers the escrow by the same amount, and closes the record, returning its rent to the owner. Nothing else changes.",
  ["inputs"], "every record, clock, balance, account contents and aliasing",
  "Time boundary, account substitution and aliasing cases are unbounded.",
  [I + "withdraw.rs"], [("maturity test, transfer, close", I + "withdraw.rs")], POOL, CHAIN_NOTE, SYM)
P("C06", "The pool stays solvent",
  "In every reachable state the vault covers the escrow, the escrow equals the sum of the open withdrawal records, and the "
  "unescrowed ORCA covers the xORCA supply.",
  ["histories", "inputs"], "every successful instruction from every state satisfying the invariant (induction over histories of any length)",
  "An invariant over all histories; tests run a few scripted sequences.",
  [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs"], [("escrow accounting", SP + "state/state.rs")], POOL,
  CHAIN_NOTE + " Inductive step over every instruction; the base case is Initialize.", SYM)
P("C07", "Nothing moves without its owner's signature",
  "In a successful instruction tokens and lamports leave an account only with its owner's (or the recorded withdrawer's) "
  "signature, settings change only with the update authority's signature, and minted or withdrawn tokens go only to the acting user.",
  ["inputs"], "every set of signers, account owners, token owners, program-owned contents and aliasings",
  "Attacks substitute accounts in combinations no test lists.",
  [SP + "assertions/account.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs", I + "initialize.rs"],
  [("signer, owner and address assertions", SP + "assertions/account.rs")], (), CHAIN_NOTE, SYM)
P("C08", "Only the canonical accounts are accepted",
  "A successful instruction used the real ORCA and xORCA mints, the real token and system programs, the canonical state, vault "
  "and withdrawal-record addresses, correctly owned and typed, and the user's own token accounts. Afterwards every account of the program is "
  "a well-formed State at the canonical address or a well-formed record at its owner's canonical address.",
  ["inputs"], "every account list, owner, key, discriminator, stored bump and aliasing",
  "Tests replace one account at a time with one wrong value.",
  [SP + "assertions/account.rs", SP + "pda.rs", SP + "state/state.rs", SP + "state/pending_withdraw.rs"],
  [("owner/address/seed assertions", SP + "assertions/account.rs")], (), CHAIN_NOTE, SYM)
P("C09", "Settings change only as requested by the update authority",
  "A successful Set was signed by the current update authority and changes exactly the requested setting to exactly the requested value; "
  "a negative cooldown is never stored.",
  ["inputs"], "every requested value, signer, state contents and aliasing", "Tests use single values of each setting.",
  [I + "set.rs", SP + "state/state.rs"], [("authority check and field update", I + "set.rs")], (), CHAIN_NOTE, SYM)
P("C10", "Initialization happens once, by the deployer, correctly",
  "A successful Initialize is signed by the hard-coded deployer and the update authority, finds an unused state account, an empty "
  "xORCA supply controlled only by the state, and 6-decimal mints, and creates a zeroed state with the given cooldown and authority "
  "plus an empty ORCA vault owned by the state.",
  ["inputs"], "every signer, mint contents, pre-existing account contents and cooldown",
  "Re-initialisation and hostile pre-created accounts are open-ended.",
  [I + "initialize.rs", SP + "state/state.rs"], [("deployer and mint assertions", I + "initialize.rs")], (), CHAIN_NOTE, SYM)
P("C11", "Pre-funding cannot block or overcharge account creation",
  "Whatever lamports a new state, vault or record address already holds, creation leaves it rent exempt, keeps that balance, and "
  "charges the payer exactly the missing rent.",
  ["inputs"], "every pre-funded balance, rent rate and payer balance", "Tests pre-fund one or two amounts.",
  [SP + "util/account.rs", I + "unstake.rs", I + "initialize.rs"], [("transfer/allocate/assign", SP + "util/account.rs")], (), CHAIN_NOTE, SYM)
P("C12", "Malformed requests fail cleanly",
  "Any instruction data that is not a known tag with a complete payload is rejected with error 6000, missing accounts with 6003 and a foreign program id "
  "with 6001; no data, account list or account contents make the program panic or access memory out of bounds.",
  ["inputs"], "all instruction data up to the stated length, every account count, arbitrary account contents",
  "Byte strings and account contents are too many to sample.",
  [SP + "entrypoint.rs", I + "mod.rs", SP + "state/mod.rs", SP + "cpi/token/state.rs"], [("deserialisation", SP + "entrypoint.rs")], (), CHAIN_NOTE, SYM)
P("C13", "Events report the resulting state",
  "Every successful Stake, Unstake, Withdraw and authority change emits exactly one event in the documented layout whose fields equal the "
  "amounts moved and the state after the instruction.",
  ["inputs"], "every amount, balance and account contents", "Tests compare a few events.",
  [SP + "event.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs"], [("emit", SP + "event.rs")], (), CHAIN_NOTE, SYM)
P("C21", "A withdrawal record survives until its owner is paid",
  "An open withdrawal record is created only by its owner's Unstake, is never altered, and disappears only when its owner, after maturity, receives exactly the "
  "recorded ORCA; the pool state is never destroyed or reassigned.",
  ["histories", "inputs"], "every instruction by anyone, with any accounts in any slots",
  "A record could be overwritten or replayed by sequences no test runs.",
  [I + "unstake.rs", I + "withdraw.rs", SP + "util/account.rs"], [("create and close", SP + "util/account.rs")], (), CHAIN_NOTE, SYM)
P("C23", "Well-formed requests succeed",
  "In a healthy pool no account contents, rounding, rent or pre-funding make a well-formed Stake, Unstake, matured Withdraw, Set or Initialize fail: "
  "funds can always be staked, unstaked and, after the cooldown, withdrawn.",
  ["inputs"], "every healthy pool with balances below 2^62 and every well-formed request",
  "Success is shown for a few scripted requests; a rejection for particular values would lock funds.",
  [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs", I + "set.rs"], [("checked arithmetic", SP + "util/math.rs")], POOL, CHAIN_NOTE, SYM)
P("C24", "Errors tell the truth",
  "When the program rejects a request with one of its documented error codes, the condition that the code names really holds.",
  ["inputs"], "every rejected request", "Tests check one cause per code.",
  [SP + "error.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs", I + "set.rs"], [("error mapping", SP + "error.rs")], (), CHAIN_NOTE, SYM)

exec(open(os.path.join(V, "tools", "gen_client.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_client.py")) else None


def main():
    order = sorted(PROPS, key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in order:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for p in order:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({"property": p["id"], "quick_cmd": "./check.py " + p["id"],
                                  "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
                                  "technique": p["technique"], "level": "model_checking", "level_note": p["level"]})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
