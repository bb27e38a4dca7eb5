T = "contract-based deductive verification of the real code (pyvc: verification conditions from the Python AST of /repo on every run, z3/cvc5)"
TB = T + "; functions outside its reach: contracts on the entry points executed on generated inputs against an independent oracle (bounded, not counted as proved)"
MIX = "Not everything is proved: the evidence lists the contracts discharged for all inputs and those only executed (bounded)."
CLAIMS = {"C05": ("proof", T, "Every obligation is discharged from the current source for all networks; see DESIGN.md for the trusted base.")}
for i in "C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27".split():
    CLAIMS[i] = ("exploration", TB, MIX)
NOT_APPLICABLE = {}
