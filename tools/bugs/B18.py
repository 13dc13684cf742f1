PROPERTY = 'C13'
NEEDS = 'an authority handed over by the authority itself'
BREAKS = 'the authority event names the new authority as the one who set it'
ALSO = []
EDITS = [
    ('solana-program/src/instructions/set.rs',
     '            let old_authority = state_view.update_authority;\n            state_view.update_authority = *new_authority;\n',
     '            state_view.update_authority = *new_authority;\n            let old_authority = state_view.update_authority;\n'),
]
DEMO = """
n = key(71)
r, a = run("set", 1, over={"arg.authority": le(n)})
check(r.kind == "ok", "the authority can be handed over")
e = events(r)[0]
check(e[1:33] == n and e[33:65] == key(60), "the event names new and old authority")
"""
