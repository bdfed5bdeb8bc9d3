"""known_findings.json: no unrepaired finding; the repaired defects."""
import json
F = [
("C02","17f0e25","after a diverged solve the step size was divided by the change ratio twice (or increased when the ratio made the controller grow it), so the retry did not follow the documented controller"),
("C01","0a3a1dc","the milestone following one that was reached up to rounding was skipped"),
("C01","88d111f","a first step longer than the first milestone or the final time went past it"),
("C20","758f9b9","initialising a transient HeatTransferProblem replaced the user's initial condition, so a second initialise failed or used another one"),
("C09","eb2a82f","the previous temperature of a transient heat problem was the current one in the hydrogen equations with chemical potential conservation"),
("C03","fbcbe34","a retried step kept the time of the failed attempt: inputs were evaluated at a time that did not match the reduced step"),
("C14","b564d6b","extrinsic trap densities were integrated with the step size chosen for the next step"),
("C14","5dbd888","time dependent parameters of extrinsic traps were never updated"),
("C11","626614f","CustomDirichlet imposed the concentration value on theta with conservation of chemical potential"),
("C15","a6f32d1","an initial condition naming a trap by id was applied to the trap at that position"),
("C10","d2c8711","boundary conditions with field '0' or '1' were silently not applied as field 0 or 1"),
("C12","b59aac8","SurfaceKinetics with conservation of chemical potential used theta instead of the concentration for the previous step"),
("C16","d48d431","MaximumSurface and MinimumSurface could not be used in DerivedQuantities"),
("C16","4a20e40","derived quantities of the retention field raised with traps"),
("C17","0362007","TXT and CSV exports to the current directory raised"),
("C18","4e441af","TXTExport raised with materials made of several layers"),
("C21","b8402d2","borders=[[a, b]] was rejected"),
("C19","cee86b5","XDMFExport with mode='last' wrote nothing in steady state"),
("C19","47ba4e4","TrapDensityXDMF of a trap with one density per material wrote only the first"),
("C20","71ad7f3","default lists of sources, conditions were shared between models"),
("C20","7575489","exports of a model initialised again continued from the previous run"),
("C06","d38c213","traps and solubilities of materials with several ids were only applied in the first"),
("C16","184273c","MaximumSurface and MinimumSurface on the end points of 1D meshes returned the extremum of the wrong dofs"),
("C17","ca74d19","titles with commas were written unquoted in CSV files, shifting the columns"),
("C19","09798fd","initial conditions read from XDMF were read on another element than the exported one"),
("C19","e95629f","components of mixed functions were written to checkpoints with the dofs of the mixed space"),
("C20","8405de3","a HeatTransferProblem initialised again reused its Newton solver with stale state"),
("C20","4d00c45","derived quantities in cylindrical and spherical coordinates used the coordinates of the first mesh after the mesh was changed"),
("C21","3b1b393","a 1D domain starting before the borders of its materials was accepted with unmarked cells"),
("C22","7a7b1a9","+= on typed collections accepted items of the wrong type"),
("C22","ef223d8","unknown types of coordinates were accepted"),
("C19","917912e","TrapDensityXDMF raised KeyError when no trap has the id 1"),
("C22","901da4e","traps with more parameters than materials were accepted"),
]
json.dump({"known": [], "fixed": ["fixed: property=%s %s %s" % f for f in F]}, open("known_findings.json","w"), indent=1)
