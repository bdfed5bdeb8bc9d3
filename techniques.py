COMMON = "Trusted: dolfin/PETSc, Hypothesis and the numpy reference in vf/ref.py, vf/model.py; floating point tolerances are stated in DESIGN.md."
NOTES = "No hooks in /repo: checks observe through public attributes, user-defined derived quantities and written files. The quick tier is deterministic for a given VERIF_SEED."
NA = {}
REF = "Generated models are run through FESTIM and every accepted step is judged by an independent numpy implementation of the documented equations; no claim beyond the generated cases."
D = "generated models, row-wise differential oracle against an independent weak form"
T = {
    "C01": ("generated time settings and scheduled solver outcomes, invariants over the history of solution times", "Real runs of Simulation with generated step controls, milestones and fault-injected Newton outcomes; no claim beyond the generated cases."),
    "C02": ("generated time settings and scheduled solver outcomes, reference model of the step controller run in lock step", "Every step size of real runs is compared with an independent controller; no claim beyond the generated cases."),
    "C03": ("fault injection into generated runs (scheduled and genuine non-convergence), row-wise differential oracle on every accepted state", REF),
    "C04": ("generated models, conservation invariant over every step of the history", "The balance is computed by an independent quadrature from the reported fields only; no claim beyond the generated cases."),
    "C05": (D, REF),
    "C06": (D + " (trapping and mobile rows)", REF),
    "C07": (D + " in the variable theta, plus reconstruction of the reported concentration", REF),
    "C08": (D + " with the thermo-diffusion term, plus metamorphic comparison with the effect off", REF),
    "C09": (D + " of the heat equation and of hydrogen at that temperature", REF),
    "C10": (D + " with each stated flux law on each surface", REF),
    "C11": ("generated models, pointwise oracle of the stated boundary values at every solution time plus row-wise oracle elsewhere", REF),
    "C12": (D + " of the surface balance, the bulk rows and the exported adsorbed amount", REF),
    "C13": (D + " with the stated sources and decay in each volume and field", REF),
    "C14": (D + " of the density equation and of the trap that uses it", REF),
    "C15": ("generated models, pointwise oracle of the state before the first step and row-wise oracle of the first step", REF),
    "C16": ("generated models, reference integrals, averages and extrema of the recorded fields", "Each reported value is recomputed from the recorded nodal fields by independent quadrature; no claim beyond the generated cases."),
    "C17": ("generated export settings and histories, reference table rebuilt from recorded steps, file compared after every change", "Tables and files of real runs are compared with a model of the table; no claim beyond the generated cases."),
    "C18": ("generated export settings and histories, reference profiles rebuilt from recorded steps", "Files of real runs are read back and compared; no claim beyond the generated cases."),
    "C19": ("generated export settings and histories, round-trip through XDMF files and restarted runs", "Files of real runs are read back with dolfin and by restarts, and compared with recorded fields; no claim beyond the generated cases."),
    "C20": ("stateful generation of initialise/run/modify histories over several models, differential comparison with fresh models", "Every run of the history is compared with a fresh model of the same configuration; no claim beyond the generated histories."),
    "C21": ("generated vertex lists, border layouts and marked mesh files, reference markers from cell midpoints", "Meshes and markers are compared entity by entity; no claim beyond the generated cases."),
    "C22": ("single-defect corruption of generated valid models and generated sequences of collection operations against a reference model", "Corrupted models must raise before a hydrogen solve and the uncorrupted twin must run; no claim beyond the generated defects."),
    "C23": ("metamorphic comparison of generated models with generated rewritings of them", "All fields at all steps and derived quantities of both descriptions are compared; no claim beyond the generated cases."),
    "C24": ("generated collections and queries, files and expressions against plain Python models of them", "Every lookup and conversion is compared with a model; no claim beyond the generated cases."),
}
