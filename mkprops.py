"""Writes properties.jsonl (single source of the property texts)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


CONC = "festim/concentration/"
BC = "festim/boundary_conditions/"
DQ = "festim/exports/derived_quantities/"

p(
    "C01",
    "Time marching visits every milestone and ends exactly at the final time",
    "In every transient run the solution times increase strictly, no solution is produced beyond the final time, and the last one is the final time (times are matched to a relative 1e-5, the code's own tolerance). Every milestone (including requested TXT export times) inside the simulated interval is one of the solution times. The first step never overshoots the first milestone or the final time, whatever the initial step size, growth ratio or maximum step size.",
    ["configurations", "histories"],
    "all combinations of final time, initial step size, growth ratio, maximum step size (number or function of time), milestones and TXT export times",
    "tests run a handful of fixed schedules; the floating point coincidences between milestones, clipped steps and the final time are only reached by searching over schedules",
    ["festim/generic_simulation.py", "festim/stepsize.py", "festim/exports/txt_export.py"],
    [("clipping of the next step to the final time", "Simulation.iterate"), ("clipping to the next milestone", "Stepsize.adapt / next_milestone")],
    ["Simulation.t after each step", "times stored by derived quantities"],
)
p(
    "C02",
    "The adaptive step size follows its documented controller",
    "With a change ratio r, after a converged step the next step size is the current one times r when the solver took fewer than five iterations and divided by r otherwise, then limited by the maximum step size (a number, or the value of a function at the current time, None meaning no limit), then shortened to reach the next milestone or the final time. After a non-converged attempt the step size is divided by r, and a ValueError is raised if it falls below dt_min or if dt_min is not given. Without a change ratio the step size starts at the initial value and only changes where it is shortened to reach a milestone or the final time.",
    ["inputs", "fault_sequences", "histories"],
    "all controller parameters and all sequences of (iteration count, converged) outcomes",
    "tests probe single calls with two or three outcomes; the interplay of ratio, caps, milestones and outcomes over a history is not sampled",
    ["festim/stepsize.py", "festim/generic_simulation.py", "festim/h_transport_problem.py"],
    [("controller", "Stepsize.adapt"), ("deprecated t_stop/stepsize_stop_max mapped to a cap", "Stepsize.__init__")],
    ["Stepsize.value after each accepted or rejected step"],
)
p(
    "C03",
    "A failed nonlinear solve is retried consistently or reported",
    "When the hydrogen solve of a step fails to converge, the step is retried from the last accepted state with a smaller step size, and every accepted solution is the solution of the model equations at its reported time for the step actually taken: time, temperature, time dependent inputs and step size agree. If the step size cannot be reduced (no adaptive stepping, no dt_min, or below dt_min) the run stops with an error instead of looping or returning an unconverged state; a steady run that does not converge raises.",
    ["fault_sequences", "histories"],
    "all patterns of solver failures over the attempts of a run, with and without adaptive stepping, time dependent temperature and inputs",
    "non-convergence is rare with the parameters of the tests; faults at each attempt of a run have to be injected",
    ["festim/h_transport_problem.py", "festim/stepsize.py", "festim/generic_simulation.py"],
    [("retry loop", "HTransportProblem.update"), ("time advance", "Simulation.iterate")],
    ["recorded solutions and times", "exceptions"],
)
p(
    "C04",
    "Hydrogen is conserved: inventory change equals net gain",
    "Over every time step of a transient run the change of the total hydrogen inventory (mobile plus trapped plus adsorbed, plus the subsurface layer lambda_IS c_m of surface kinetics) equals the time step times the sum of volumetric sources, prescribed boundary fluxes and adsorption, minus decay, whatever combination of materials, traps, temperature histories, solubility laws, Soret effect, flux conditions and surface kinetics is active. Trapping, detrapping and interfaces between materials neither create nor destroy hydrogen.",
    ["configurations", "histories", "inputs"],
    "all combinations of model features without fixed-concentration boundaries, along whole histories",
    "MMS tests look at one feature at a time with tolerances too loose to see a leak; conservation must hold for every combination",
    ["festim/h_transport_problem.py", CONC + "mobile.py", CONC + "theta.py", CONC + "traps/trap.py", BC + "fluxes/surface_kinetics.py", "festim/temperature/"],
    [("weak forms tested with the constant function", "Mobile.create_form, Trap.create_form"), ("previous temperature in the storage term", "Temperature.update, HeatTransferProblem.update")],
    ["recorded solution fields", "TotalVolume of retention"],
)
p(
    "C05",
    "Diffusion follows Fick's law with per-material Arrhenius D in all geometries",
    "In steady and transient runs on cartesian (1D, 2D, 3D), cylindrical (1D, 2D) and spherical (1D) meshes the mobile concentration satisfies the documented diffusion equation with D = D_0 exp(-E_D/(k_B T)) evaluated with the properties of the material of each subdomain and the local, current temperature. The solution is discretised with implicit Euler on the step actually taken, and fluxes balance across material interfaces.",
    ["inputs", "configurations"],
    "all meshes, material layouts (including one material on several subdomains), temperatures and coordinate systems",
    "MMS tests fix one geometry, uniform meshes and one or two materials",
    [CONC + "mobile.py", "festim/materials/", "festim/meshing/", "festim/h_transport_problem.py"],
    [("diffusion form per material and geometry", "Mobile.create_diffusion_form"), ("subdomain measures", "Mesh.define_measures")],
    ["recorded mobile concentration"],
)
p(
    "C06",
    "Traps exchange hydrogen by the documented kinetics, in their materials only",
    "Each trap obeys d c_t/dt = k(T) c_m (n - c_t) - p(T) c_t in the materials it is assigned to, with its own Arrhenius parameters and density (constant, position or time dependent, or listed per material), and the same exchange appears with opposite sign in the mobile balance. Outside its materials a trap holds no hydrogen it did not start with, in steady state it is empty there (for continuous trap elements in the weak sense of the discretisation), and several traps, CG or DG trap elements and traps described by lists of per-material properties all follow the same law.",
    ["inputs", "configurations", "histories"],
    "all trap sets, densities, material assignments, element types and temperatures, steady and transient",
    "tests use one or two traps with constants in one material; index mix-ups between traps, materials and list entries need varied sets",
    [CONC + "traps/trap.py", CONC + "traps/traps.py", CONC + "mobile.py", "festim/h_transport_problem.py"],
    [("trapping form", "Trap.create_trapping_form"), ("exchange in the mobile form", "Mobile.create_diffusion_form")],
    ["recorded trap concentrations and mobile concentration"],
)
p(
    "C07",
    "With chemical potential conservation, c/S (or sqrt(c/S)) is continuous",
    "When conservation of chemical potential is on, the mobile concentration is c = theta S(T) in Sieverts materials and c = theta^2 S(T) in Henry materials with one theta continuous across all interfaces, S the Arrhenius solubility of the local material at the current temperature. The concentration so defined obeys the same transport, trapping and boundary laws (including Robin-type fluxes evaluated with c), and the reported mobile concentration is that c in each material, also when the temperature varies in time or is solved.",
    ["inputs", "configurations", "histories"],
    "all multi-material layouts, solubility laws, temperatures (uniform, varying in space and time, solved), boundary conditions and initial conditions",
    "tests check a bilayer with fixed temperatures and loose tolerances",
    [CONC + "theta.py", "festim/materials/materials.py", BC + "dirichlets/dirichlet_bc.py", "festim/generic_simulation.py"],
    [("change of variable", "Theta.get_concentration_for_a_given_material"), ("projection of c", "Theta.post_processing_solution_to_concentration"), ("Dirichlet conversion", "BoundaryConditionTheta")],
    ["recorded mobile concentration in each material", "interface jumps"],
)
p(
    "C08",
    "The Soret effect adds the documented thermo-diffusion flux",
    "With the Soret effect on, the hydrogen flux is -D (grad c + Q c/(k_B T^2) grad T) with Q the material's heat of transport, a number or a function of temperature, in every geometry, steady or transient, with prescribed or solved temperature, and with or without conservation of chemical potential. With the effect off, or with zero heat of transport or a uniform temperature, the solution is the one of plain diffusion.",
    ["inputs", "configurations"],
    "all temperature fields, heats of transport, materials, geometries",
    "tests use one cartesian MMS case",
    [CONC + "mobile.py", "festim/materials/", DQ + "surface_flux.py"],
    [("Soret terms", "Mobile.create_diffusion_form")],
    ["recorded mobile concentration"],
)
p(
    "C09",
    "Solved temperatures satisfy the documented heat equation",
    "A solved temperature satisfies rho c_p dT/dt = div(lambda grad T) + Q with per-material (possibly temperature dependent) properties, volumetric sources in their subdomains, and its Dirichlet, flux, convective and custom boundary conditions evaluated at the current time, starting from the given initial temperature; a steady heat problem satisfies the steady equation. The same temperature field is the one used by the hydrogen equations at that time, in all geometries, and a heat solve that does not converge stops the run with an error.",
    ["inputs", "configurations", "histories"],
    "all thermal properties, sources, boundary conditions, geometries, steady/transient combinations, re-runs",
    "tests use constant properties in a few fixed cases",
    ["festim/temperature/temperature_solver.py", "festim/temperature/temperature.py", BC + "fluxes/convective_flux.py"],
    [("heat form", "HeatTransferProblem.define_variational_problem"), ("time update", "HeatTransferProblem.update")],
    ["recorded temperature", "recorded mobile concentration"],
)
p(
    "C10",
    "Boundary fluxes follow their stated laws on their surfaces",
    "Each flux condition imposes exactly its law on exactly the surfaces it names and nowhere else, evaluated with the current time, position, local temperature and mobile concentration: prescribed flux (positive into the material), recombination -Kr(T) c^order, dissociation Kd(T) P, mass transfer -h (c - c_ext), convection -h (T - T_ext) and user-defined functions with constant or time/space dependent parameters. Several flux conditions on the same surface add up, and a surface without condition is impermeable/adiabatic.",
    ["inputs", "configurations", "histories"],
    "all flux types, parameters (numbers or expressions of x and t), surface lists, geometries, temperatures",
    "tests evaluate each form once with fixed parameters; surfaces, staleness in time and combinations are not sampled",
    [BC + "fluxes/", CONC + "mobile.py", "festim/temperature/temperature_solver.py"],
    [("flux forms", "FluxBC.create_form and subclasses"), ("attribution", "Mobile.create_fluxes_form")],
    ["recorded fields near the boundaries"],
)
p(
    "C11",
    "Fixed-value boundary conditions are met at every solution time",
    "At every solution time the field named by a fixed-value condition has exactly the stated value at every point of every surface it names: constants or expressions of position and time, Sieverts' law S(T) sqrt(P), Henry's law H(T) P, the implantation approximation phi R_p/D + sqrt((phi + Kd P)/Kr), and user-defined functions, using the local temperature at that time. This holds for mobile hydrogen (with or without conservation of chemical potential, for either solubility law), for trapped hydrogen fields and for temperature, and other fields and surfaces are unaffected.",
    ["inputs", "configurations", "histories"],
    "all Dirichlet types, fields, surfaces, dimensions, parameters and temperatures over the history of a run",
    "tests compare expressions at one or two points and never along a run with every type",
    [BC + "dirichlets/", "festim/h_transport_problem.py", "festim/temperature/temperature_solver.py"],
    [("expression creation", "DirichletBC.create_expression and subclasses"), ("update in time", "HTransportProblem.update, festim.update_expressions")],
    ["recorded field values on surfaces"],
)
p(
    "C12",
    "Surface kinetics couple adsorbed and subsurface hydrogen as documented",
    "On each surface with surface kinetics the adsorbed concentration obeys dc_s/dt = J_vs + J_bs - J_sb and the bulk receives -D grad c.n = lambda_IS dc_m/dt + J_bs - J_sb, with J_bs = k_bs c_m (1 - c_s/n_surf) and J_sb = k_sb c_s (1 - c_m/n_IS), rates and fluxes being numbers or user functions of temperature, concentrations and (possibly time dependent) parameters. Each surface has its own adsorbed concentration starting from the given initial value, several such conditions coexist with traps and other conditions, and the exported adsorbed amount is that of the requested surface.",
    ["inputs", "configurations", "histories"],
    "all rate constants/functions, surface lists, parameters, trap sets, steady and transient",
    "tests compare forms for fixed parameters and one MMS case",
    [BC + "fluxes/surface_kinetics.py", "festim/h_transport_problem.py", DQ + "adsorbed_hydrogen.py"],
    [("surface form", "SurfaceKinetics.create_form"), ("one unknown per surface", "HTransportProblem.define_function_space / initialise_concentrations")],
    ["recorded adsorbed and mobile concentrations", "AdsorbedHydrogen data"],
)
p(
    "C13",
    "Volumetric sources and decay act on the right field, volume and time",
    "Every volumetric source adds its current value (number, expression of x and t, Gaussian implantation profile with the stated depth, width and total flux) to the equation of the field it names (mobile, a trap, or temperature), in the volumes it names only. Radioactive decay removes lambda times the local concentration from the named field, or from every hydrogen field when applied to all, in the named volume only; sources on the same field and volume add up.",
    ["inputs", "configurations", "histories"],
    "all source types, fields, volumes (also lists for mobile/temperature), values, trap sets, solubility options",
    "tests check forms with one source",
    ["festim/sources/", CONC + "mobile.py", CONC + "traps/trap.py", "festim/generic_simulation.py"],
    [("attribution to fields", "Simulation.attribute_source_terms"), ("forms", "Mobile.create_source_form, Trap.create_source_form, HeatTransferProblem.define_variational_problem")],
    ["recorded fields"],
)
p(
    "C14",
    "Extrinsic and neutron-induced trap densities follow their rate equations",
    "The density of an extrinsic trap starts at zero and follows dn/dt = phi_0 ((1 - n/n_a,max) eta_a f_a + (1 - n/n_b,max) eta_b f_b), that of a neutron-induced trap dn/dt = phi K (1 - n/n_max) - A_0 exp(-E_A/(k_B T)) n, integrated by implicit Euler with the size and time of each actual step and with time dependent parameters evaluated at that time. The trap occupancy evolves with that density, also for adaptive steps, several such traps, and re-runs.",
    ["inputs", "configurations", "histories"],
    "all parameters (numbers or expressions), temperatures, step size histories, trap sets",
    "tests use one fixed step size and constant parameters",
    [CONC + "traps/extrinsic_trap.py", CONC + "traps/neutron_induced_trap.py", CONC + "traps/traps.py", "festim/h_transport_problem.py"],
    [("density form", "create_form_density"), ("density solve after the hydrogen solve", "HTransportProblem.update")],
    ["trap density functions and trap concentrations after each step"],
)
p(
    "C15",
    "Runs start from the given initial conditions",
    "Before the first step each field equals its initial condition (number, expression of position, or field read from an XDMF checkpoint), interpolated at the mesh vertices, in the field it names and in no other; fields without initial condition start at zero. With conservation of chemical potential the initial unknown is the projection of c/S (or sqrt(c/S)) of the given concentration c in every material, and the first step is taken from that state.",
    ["inputs", "configurations"],
    "all fields, values, trap ids, element types, meshes, solubility options",
    "tests use one field at a time with default trap ids",
    ["festim/h_transport_problem.py", CONC + "concentration.py", CONC + "theta.py", "festim/initial_condition.py"],
    [("assignment of components", "HTransportProblem.initialise_concentrations")],
    ["initial state of the fields", "first recorded step"],
)
p(
    "C16",
    "Derived quantities equal the integrals, averages, extrema they name",
    "Each reported total, average, surface flux (diffusive and, with the Soret effect, thermo-diffusive; hydrogen or heat), minimum, maximum and point value equals the corresponding quantity of the current field over the named volume or surface, including the cylindrical and spherical weights and angular ranges. This holds for mobile, trapped, total (retention) hydrogen and temperature, for every material layout and solubility option, at every reported time.",
    ["inputs", "configurations"],
    "all quantity types, fields, volumes/surfaces, geometries, angular ranges, materials, temperatures",
    "tests check each class on one simple function with a unit property",
    [DQ],
    [("assembly of each quantity", "compute methods"), ("choice of the field", "Exports.write"), ("properties", "DerivedQuantities.assign_properties_to_quantities, Materials.create_properties")],
    ["DerivedQuantity.data", "recorded fields"],
)
p(
    "C17",
    "The derived-quantity table is complete, aligned in time and written out",
    "A derived-quantities table holds a header naming time and every quantity in order with its unit, followed by one row per computed step (every N-th step as configured, steady runs one row) whose time is the solution time and whose entries are the values of the quantities at that time; each quantity's own data and times agree with the table. The CSV file, written at the configured cadence or at the end, contains exactly the rows computed so far.",
    ["configurations", "histories", "inputs"],
    "all quantity lists, compute/export cadences, units options, file locations, schedules and re-runs",
    "tests check single calls of the cadence predicates and one file",
    [DQ + "derived_quantities.py", "festim/exports/exports.py"],
    [("rows", "DerivedQuantities.compute"), ("cadence", "is_compute / is_export"), ("file", "DerivedQuantities.write")],
    ["DerivedQuantities.data, .t, CSV file"],
)
p(
    "C18",
    "TXT profiles contain the field at the vertices at the requested times",
    "A TXT export holds the mesh vertex positions in increasing order and one column per exported time, headed by that time, with the field's values at those positions; columns exist exactly for the requested times (or for every step, or one steady column) and the file is written as configured. For discontinuous fields both one-sided values are kept at material interfaces (all duplicates if filtering is off), also for materials made of several layers.",
    ["configurations", "inputs", "histories"],
    "all fields, time lists, filtering and write options, material layouts, element types, re-runs",
    "tests check one mesh and one or two times",
    ["festim/exports/txt_export.py", "festim/exports/exports.py", "festim/generic_simulation.py"],
    [("columns", "TXTExport.write"), ("positions and interfaces", "TXTExport.initialise")],
    ["the text file", "recorded fields"],
)
p(
    "C19",
    "XDMF exports round-trip: fields, times and restarts are preserved",
    "An XDMF checkpoint export contains the exported field at exactly the configured steps (every N-th or only the last) with their times and label, and reading a stored step back gives the exported field: a run restarted from it as initial condition, or a temperature or heat problem read from it, starts from exactly that field. Trap-density exports contain the trap's density of each material where the trap lives and zero elsewhere.",
    ["configurations", "histories", "inputs"],
    "all fields, modes, labels, restart steps, meshes, trap descriptions",
    "tests write a file and check it exists or one value",
    ["festim/exports/xdmf_export.py", "festim/exports/trap_density_xdmf.py", CONC + "concentration.py", "festim/temperature/temperature_from_xdmf.py", "festim/helpers.py", "festim/meshing/mesh_from_xdmf.py"],
    [("writing", "XDMFExport.write / is_export"), ("reading", "Concentration.get_comp, TemperatureFromXDMF, HeatTransferProblem")],
    ["XDMF files read back"],
)
p(
    "C20",
    "Re-running a model reproduces it and models do not influence each other",
    "Initialising and running the same model again gives the same times, fields, derived quantities and exported tables as the first run, whatever features it uses, and changing a setting between the runs gives what a fresh model with that setting gives. Separate models built in one program are independent: building, initialising or running one does not change the results or the configuration of another.",
    ["histories", "configurations"],
    "all models and all interleavings of initialise/run/modify over several models",
    "tests build one fresh model per test",
    ["festim/generic_simulation.py", "festim/exports/exports.py", "festim/temperature/temperature_solver.py", "festim/h_transport_problem.py", "festim/stepsize.py"],
    [("re-initialisation", "Simulation.initialise, Exports.initialise_derived_quantities, Stepsize.initialise_value")],
    ["recorded histories of repeated and interleaved runs"],
)
p(
    "C21",
    "1D meshes and subdomains are exactly those described",
    "A mesh built from vertices has exactly the distinct given vertices in increasing order; every cell belongs to the material whose borders contain it (its midpoint decides; including materials made of several layers with one or several ids), surface 1 is the lowest end, surface 2 the highest and no interior point is a surface. Borders (starting at zero) that leave gaps, overlap or do not span the mesh are rejected. Meshes read from XDMF files have the vertices, volume and surface markers of the files.",
    ["inputs", "configurations"],
    "all vertex lists (any order, duplicates, any length scale) and border layouts",
    "tests use a few fixed layouts",
    ["festim/meshing/", "festim/materials/materials.py"],
    [("marking", "Mesh1D.define_volume_markers / define_surface_markers"), ("lookup", "Materials.find_subdomain_from_x_coordinate"), ("validation", "Materials.check_borders")],
    ["volume and surface markers, integrals over subdomains"],
)
p(
    "C22",
    "Inconsistent models are rejected with an error, consistent ones accepted",
    "Models that are incomplete or contradictory (missing temperature, time step or final time, unknown fields, heat conditions without a heat problem, a fixed value or surface kinetics together with another condition on the same field and surface, duplicated or inconsistent material definitions, geometry/coordinate mismatches, surface kinetics beyond 1D, values of the wrong type or range) are refused with an exception before the hydrogen transport is solved (an unknown field of an export at the latest when it is first written). Equivalent consistent models are accepted, and typed collections (materials, traps, exports, derived quantities) only ever hold items of their type.",
    ["configurations", "histories", "inputs"],
    "all single-defect corruptions of generated valid models, and all sequences of collection operations",
    "tests cover a fixed list of bad inputs, not the corruption of arbitrary valid models",
    ["festim/generic_simulation.py", "festim/materials/", CONC + "traps/traps.py", "festim/exports/", DQ],
    [("checks", "Simulation.initialise, check_boundary_conditions, check_mesh_dim_coords, Materials.check_*, property setters")],
    ["exceptions", "contents of collections"],
)
p(
    "C23",
    "Equivalent descriptions of one physical problem give the same solution",
    "Splitting a material into identical layers, listing surfaces or volumes in one condition or in several, reordering materials, traps, sources, conditions or initial conditions, renumbering ids, describing traps per material in lists or separately, mirroring the domain, and naming fields by any of their documented aliases leave all fields and derived quantities unchanged. So do splitting a source, flux or trap into parts that add up, writing a constant as a constant expression, marking the mesh by borders or by the user's markers, and giving all inputs in other units of amount, length or time (the solution is then the same in those units, so scaling all hydrogen amounts of a linear model scales its solution).",
    ["configurations", "inputs"],
    "all generated models and all listed rewritings of them",
    "tests never compare two descriptions of one problem",
    ["festim/"],
    [("whole assembly of the problem", "Simulation.initialise")],
    ["recorded fields and derived quantities of both descriptions"],
)

p(
    "C24",
    "Lookups and conversions return exactly what they name",
    "Filtering derived quantities returns those, and only those, that match every given criterion (surfaces, volumes, fields, classes, each one value or a list), in their order; a trap is found by its id and a material by any of its ids, its name or itself, and an unknown one raises a ValueError. Times and labels read from an XDMF file are the written ones. Numbers and sympy expressions of position and time converted to fenics objects keep their value at every point and time, fenics objects are used as they are, and energies in kJ/mol convert to eV with the module's constants.",
    ["inputs", "configurations"],
    "all collections, queries, ids, names, files, expressions, points and times",
    "tests try a few fixed queries and expressions",
    [DQ + "derived_quantities.py", "festim/helpers.py", "festim/materials/materials.py", CONC + "traps/traps.py"],
    [("filter", "DerivedQuantities.filter"), ("lookup", "Traps.get_trap, Materials.find_material"), ("conversion", "festim/helpers.py")],
    ["returned objects and values", "exceptions"],
)

with open("properties.jsonl", "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        fh.write(json.dumps(x) + "\n")
print(len(P))
