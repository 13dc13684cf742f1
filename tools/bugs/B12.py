PROPERTY = 'C12'
NEEDS = 'an instruction with empty data'
BREAKS = 'the entry point looks at the first data byte before parsing: empty data panics'
ALSO = []
EDITS = [
    ('solana-program/src/entrypoint.rs',
     '    let mut instruction_data = instruction_data;\n',
     '    if instruction_data[0] > 4 {\n        return Err(ErrorCode::UnknownInstructionDiscriminator.into());\n    }\n    let mut instruction_data = instruction_data;\n'),
]
DEMO = """
for d in (b"", b"\\x09", b"\\x01\\x00"):
    r, a = run("stake", data=d)
    check(r.kind == "err" and r.code == 6000, "data %r is refused with error 6000" % d)
"""
