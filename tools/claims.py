T = "path-sensitive typestate/dataflow analysis over the inlined go/ssa form of the current source"
CLAIMS = {}
def claim(ids, note, tech=T):
    for i in ids.split():
        CLAIMS[i] = dict(technique=tech, note=note)
claim("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C40 C41 C42", "Every path class of each public operation (branches split, loops to a bounded number of undecided iterations) is enumerated from the type-checked source and must satisfy the rule; user code is opaque, data races outside the listed rules and the Go runtime are trusted.")
