"""property id -> (module, function, level, what the level means); technique and not-applicable texts."""
EQ = ("other", "static: each obligation is an equality or implication between value numbers (algebraic normal forms) that the analyser derives from the "
      "current source for all inputs, with branches joined and loops summarised; equal normal forms, or equality under random interpretation of the extracted terms (Gulwani and Necula; one-sided error), discharge it; an interpretation telling them apart is a violation. Trusted: the analyser, the library models, real arithmetic.")
ST = ("other", "static: each obligation is a structural fact about the type-checked program (classes, overrides, call sites, effects) read from the current source.")

VN = "static analysis: value-number dataflow (abstract interpretation to algebraic normal forms) over the type-checked AST, compared with a reference value by normal form and random interpretation of the extracted terms"
STR = "static analysis: queries over the type-checked program (class hierarchy, overrides, call graph, effects)"

CHECKS = {
    "C01": ("filters", "c01") + EQ,
    "C02": ("filters", "c02") + EQ,
    "C03": ("filters", "c03") + EQ,
    "C04": ("filters", "c04") + EQ,
    "C05": ("models", "c05") + EQ,
    "C06": ("models", "c06") + EQ,
    "C07": ("models", "c07") + EQ,
    "C08": ("models", "c08") + EQ,
    "C09": ("steps", "c09") + EQ,
    "C10": ("steps", "c10") + EQ,
    "C11": ("steps", "c11") + EQ,
    "C17": ("chance", "c17") + EQ,
    "C26": ("chance", "c26") + EQ,
    "C13": ("steps", "c13") + EQ,
    "C12": ("runs", "c12") + EQ,
    "C14": ("runs", "c14") + EQ,
    "C15": ("runs", "c15") + EQ,
    "C16": ("models", "c16") + EQ,
    "C25": ("structure", "c25") + ST,
    "C18": ("pylayer", "c18") + EQ,
    "C19": ("pylayer", "c19") + EQ,
    "C21": ("pysim", "c21") + EQ,
    "C27": ("pysim", "c27") + EQ,
    "C20": ("pyselect", "c20") + EQ,
    "C23": ("binding", "c23") + EQ,
    "C24": ("access", "c24") + EQ,
    "C22": ("pyfit", "c22") + EQ,
    "C28": ("pysummary", "c28") + EQ,
}
TECHNIQUE = {}
PENDING = "Not decided yet by the analyser; no check is claimed."
NOT_APPLICABLE = {
    "C29": "Convergence of a Markov chain in distribution is an asymptotic statement about runtime quantities; no static argument in reach bounds mixing.",
    "C30": "Round-off error of complex matrix arithmetic depends on runtime conditioning; no sound static bound is in reach.",
    "C31": "Global optimality of a numerical optimiser depends on the likelihood surface; it is not a property of the program text.",
}
NOTES = "All checks read /repo's current working tree; the exporter is built by setup_cmd. VERIF_SEED is recorded but the analysis is deterministic."
