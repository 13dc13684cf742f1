PROPERTY = 'C09'
NEEDS = 'a negative cooldown whose low 32 bits look positive'
BREAKS = 'the sign test of a new cooldown looks at the low 32 bits only'
ALSO = ['C23']
EDITS = [
    ('solana-program/src/instructions/set.rs',
     '            if *new_cool_down_period_s < 0 {',
     '            if (*new_cool_down_period_s as i32) < 0 {'),
]
DEMO = """
r, a = run("set", 0, cooldown=604800)
check(r.kind == "ok" and a.f("state", "state", "cooldown") == 604800, "a week is accepted")
r, a = run("set", 0, cooldown=-2**40)
check(r.kind == "err", "a negative cooldown is refused")
"""
