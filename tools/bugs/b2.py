import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("c12-adsorbed-last-bc", "C12",
    [("exports/exports.py", """                                if quantity.surface in surf_funcs["surfaces"]:
                                    ind = surf_funcs["surfaces"].index(quantity.surface)
""", """                                if quantity.surface in surf_funcs["surfaces"]:
                                    ind = sorted(surf_funcs["surfaces"]).index(
                                        quantity.surface
                                    )
""")],
    "surface kinetics with surfaces listed in decreasing order",
    "the adsorbed amounts of the surfaces are exchanged in the exports",
    '''
def J(T, cs, cm):
    return 1.0 * (1 - cs / 10)
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 11))
m.materials = F.Material(id=1, D_0=1e-3, E_D=0)
m.T = 500
m.boundary_conditions = [F.SurfaceKinetics(k_sb=lambda T, cs, cm, p: p, k_bs=0.1, lambda_IS=0.01, n_surf=10, n_IS=100, J_vs=0, surfaces=[2, 1], initial_condition=4, p=0.1 + 0.9 * F.x)]
m.dt = F.Stepsize(0.1)
m.settings = F.Settings(1e-10, 1e-10, final_time=0.5)
a, b = F.AdsorbedHydrogen(1), F.AdsorbedHydrogen(2)
m.exports = [F.DerivedQuantities([a, b])]
m.initialise(); m.run()
if not a.data[-1] > b.data[-1]:
    print("FAIL: surface 1 desorbs ten times slower", a.data, b.data); sys.exit(1)
''')

bug("c12-jvs-second-surface", "C12",
    [("boundary_conditions/fluxes/surface_kinetics.py", """            k_bs = self.k_bs
            if callable(k_bs):
                k_bs = k_bs(T.T, self.solutions[i], solute, **self.prms)
""", """            k_bs = self.k_bs
            if callable(k_bs):
                k_bs = k_bs(T.T, self.solutions[0], solute, **self.prms)
""")],
    "surface kinetics on two surfaces with a subsurface-to-surface rate that depends on the surface concentration",
    "the rate of the second surface is computed with the adsorbed concentration of the first",
    '''
def run(bcs):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(0, 1, 11))
    m.materials = F.Material(id=1, D_0=1e-2, E_D=0)
    m.T = 500
    m.boundary_conditions = bcs
    m.initial_conditions = [F.InitialCondition(field=0, value=1 + 5 * F.x)]
    m.dt = F.Stepsize(0.1)
    m.settings = F.Settings(1e-10, 1e-10, final_time=0.5)
    a, b = F.AdsorbedHydrogen(1), F.AdsorbedHydrogen(2)
    m.exports = [F.DerivedQuantities([a, b])]
    m.initialise(); m.run()
    return a.data + b.data
kw = dict(k_sb=0.2, k_bs=lambda T, cs, cm: 0.1 * (1 + cs), lambda_IS=0.01, n_surf=10, n_IS=100, J_vs=0.3, initial_condition=1)
close(run([F.SurfaceKinetics(surfaces=[1, 2], **kw)]), run([F.SurfaceKinetics(surfaces=[1], **kw), F.SurfaceKinetics(surfaces=[2], **kw)]), 1e-6)
''')

bug("c13-decay-all-last-trap", "C13",
    [("generic_simulation.py", """                for obj in set(field_to_object.values()):
                    if isinstance(obj, festim.Concentration):
                        obj.sources.append(source)
""", """                for obj in [self.mobile, *self.traps[:1]]:
                    if isinstance(obj, festim.Concentration):
                        obj.sources.append(source)
""")],
    "decay of all fields in a model with several traps",
    "only the mobile hydrogen and the first trap decay",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
mat = F.Material(id=1, D_0=1, E_D=0, name="a")
m.materials = mat
m.T = 500
m.traps = [F.Trap(k_0=0, E_k=0, p_0=0, E_p=0, density=10, materials=mat) for _ in range(2)]
m.initial_conditions = [F.InitialCondition(field=i, value=2) for i in ("solute", "1", "2")]
m.sources = [F.RadioactiveDecay(0.5, volume=1)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-12, 1e-12, final_time=2)
q = [F.TotalVolume(n, 1) for n in ("solute", "1", "2")]
m.exports = [F.DerivedQuantities(q)]
m.initialise(); m.run()
for i in q:
    close(i.data, [2 / 1.5, 2 / 1.5**2])
''')

bug("c13-trap-source-expression", "C13",
    [("concentration/traps/trap.py", """            if isinstance(source.value, (Expression, UserExpression)):
                self.sub_expressions.append(source.value)""", """        if self.sources and isinstance(source.value, (Expression, UserExpression)):
            self.sub_expressions.append(source.value)""")],
    "several time dependent sources on one trap",
    "only the last source of a trap follows the time",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
mat = F.Material(id=1, D_0=1, E_D=0, name="a")
m.materials = mat
m.T = 500
m.traps = [F.Trap(k_0=0, E_k=0, p_0=0, E_p=0, density=10, materials=mat)]
m.sources = [F.Source(F.t, volume=1, field="1"), F.Source(2 * F.t, volume=1, field="1")]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-12, 1e-12, final_time=2)
q = F.TotalVolume("1", 1)
m.exports = [F.DerivedQuantities([q])]
m.initialise(); m.run()
close(q.data, [3, 9])
''')

bug("c15-xdmf-time-step", "C15",
    [("concentration/concentration.py", "                f.read_checkpoint(comp, label, time_step)", "                f.read_checkpoint(comp, label, time_step or -1)")],
    "an initial condition read from the first time step (0) of an XDMF checkpoint with several steps",
    "the last step of the file is used instead of step 0",
    '''
mesh = f.UnitIntervalMesh(5)
V = f.FunctionSpace(mesh, "CG", 1)
with f.XDMFFile("ini.xdmf") as file:
    for i, v in enumerate((1.0, 2.0, 3.0)):
        u = f.interpolate(f.Constant(v), V)
        file.write_checkpoint(u, "c", float(i), f.XDMFFile.Encoding.HDF5, append=i > 0)
for step in (0, 1, 2):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
    m.materials = F.Material(id=1, D_0=1, E_D=0)
    m.T = 500
    m.initial_conditions = [F.InitialCondition(field=0, value="ini.xdmf", label="c", time_step=step)]
    m.dt = F.Stepsize(1)
    m.settings = F.Settings(1e-12, 1e-12, final_time=1)
    m.initialise()
    close(m.h_transport_problem.u_n.vector()[:], step + 1.0)
''')

bug("c16-soret-flux-field-zero", "C16",
    [("exports/derived_quantities/surface_flux.py", """        flux = f.assemble(
            self.prop * f.dot(f.grad(self.function), self.n) * self.ds(self.surface)
        )
        if self.soret and self.field in [0, "0", "solute"]:""", """        flux = f.assemble(
            self.prop * f.dot(f.grad(self.function), self.n) * self.ds(self.surface)
        )
        if self.soret and self.field in [0, "solute"]:""")],
    "a hydrogen surface flux with the Soret effect whose field is written as \"0\"",
    "the thermo-diffusive part is missing from the reported flux",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0, Q=0.5)
m.T = 500 + 100 * F.x
m.boundary_conditions = [F.DirichletBC(surfaces=[1, 2], value=1, field=0)]
m.settings = F.Settings(1e-12, 1e-12, transient=False, soret=True)
q = [F.SurfaceFlux(n, 2) for n in (0, "0", "solute")]
m.exports = [F.DerivedQuantities(q)]
m.initialise(); m.run()
close([i.data[0] for i in q], q[0].data[0])
''')

bug("c16-average-cylindrical-all", "C16",
    [("exports/derived_quantities/average_volume.py", """        ) / f.assemble(1 * self.r * self.dx(self.volume))""", """        ) / f.assemble(1 * self.r * self.dx)""")],
    "a volume average in cylindrical coordinates in a model with several volumes",
    "the average is normalised by the whole domain",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 2, 11), type="cylindrical")
m.materials = [F.Material(id=1, D_0=1, E_D=0, borders=[0, 1]), F.Material(id=2, D_0=1, E_D=0, borders=[1, 2])]
m.T = 500
m.initial_conditions = [F.InitialCondition(field=0, value=3)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=1)
q = [F.AverageVolumeCylindrical("T", i) for i in (1, 2)]
m.exports = [F.DerivedQuantities(q)]
m.initialise(); m.run()
close([i.data[0] for i in q], 500)
''')

bug("c16-min-volume-global", "C16",
    [("exports/derived_quantities/minimum_volume.py", "return np.min(self.function.vector().get_local()[subd_dofs])", "return min(\n            np.min(self.function.vector().get_local()[subd_dofs]),\n            self.function.vector().max(),\n        )")],
    "", "", "")
BUGS.pop()

bug("c17-export-before-compute", "C17",
    [("exports/derived_quantities/derived_quantities.py", """                return nb_iterations % nb_its_between_exports == 0
        else:""", """                return (
                    nb_iterations % nb_its_between_exports == 0
                    and nb_iterations % self.nb_iterations_between_compute == 0
                )
        else:""")],
    "nb_iterations_between_exports that is not a multiple of nb_iterations_between_compute",
    "the CSV is not rewritten at the configured cadence: only when a row is computed at the same step",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0)
m.T = 500
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=4)
dq = F.DerivedQuantities([F.TotalVolume("solute", 1)], filename="a.csv", nb_iterations_between_compute=2, nb_iterations_between_exports=3)
m.exports = [dq]
m.initialise(); m.run()
# steps 0..3: computed at 0 and 2, written at 0 and 3
rows = open("a.csv").read().strip().splitlines()
if len(rows) != 3:
    print("FAIL", rows); sys.exit(1)
''')

bug("c18-write-last-times", "C18",
    [("exports/txt_export.py", """        elif np.isclose(current_time, self.times[-1], atol=0):""", """        elif current_time >= self.times[-1]:""")],
    "", "", "")
BUGS.pop()

bug("c18-argsort-unstable-filter", "C18",
    [("exports/txt_export.py", """                closest_x = x_column[closest_indx]
                for ind in np.where(x_column == closest_x)[0]:
                    border_indices.append(ind)
""", """                closest_x = x_column[closest_indx]
                for ind in np.where(np.isclose(x_column, closest_x))[0]:
                    border_indices.append(ind)
""")],
    "discontinuous fields on a fine mesh (vertices closer than 1e-8, e.g. nm sized domains)",
    "duplicates are kept at vertices that are no interfaces (np.isclose's absolute tolerance)",
    '''
m = F.Simulation()
x = np.linspace(0, 4e-8, 9)
m.mesh = F.MeshFromVertices(x)
m.materials = [F.Material(id=1, D_0=1e-15, E_D=0, S_0=1, E_S=0, borders=[0, x[4]]), F.Material(id=2, D_0=1e-15, E_D=0, S_0=2, E_S=0, borders=[x[4], x[8]])]
m.T = 500
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=1, chemical_pot=True)
e = F.TXTExport("solute", "a.txt")
m.exports = [e]
m.initialise(); m.run()
d = np.loadtxt("a.txt", delimiter=",", skiprows=1)
if len(d) != 10:
    print("FAIL", d[:, 0]); sys.exit(1)
''')

bug("c19-xdmf-label-digit", "C19",
    [("exports/exports.py", """                    export.function = label_to_function[export.field]
                    if isinstance(export, festim.TrapDensityXDMF):""", """                    export.function = label_to_function[
                        "solute" if export.field == "0" else export.field
                    ]
                    if isinstance(export, festim.TrapDensityXDMF):""")], "", "", "")
BUGS.pop()

bug("c19-temperature-xdmf-first", "C19",
    [("temperature/temperature_from_xdmf.py", "read_checkpoint(self.T, self.label, -1)", "read_checkpoint(self.T, self.label, 0)")],
    "a temperature read from a file with several time steps",
    "the first stored temperature is used instead of the last",
    '''
mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
V = f.FunctionSpace(mesh.mesh, "CG", 1)
with f.XDMFFile("T.xdmf") as file:
    for i, v in enumerate((300.0, 400.0)):
        file.write_checkpoint(f.interpolate(f.Constant(v), V), "T", float(i), f.XDMFFile.Encoding.HDF5, append=i > 0)
T = F.TemperatureFromXDMF("T.xdmf", "T")
T.create_functions(mesh)
close(T.T.vector()[:], 400)
''')

bug("c20-flux-subexpressions", "C20",
    [("boundary_conditions/fluxes/recombination_flux.py", """        Kr_0_expr = f.Expression(sp.printing.ccode(self.Kr_0), t=0, degree=1)
        E_Kr_expr""", """        if self.sub_expressions:
            Kr_0_expr = self.sub_expressions[0]  # already created
        else:
            Kr_0_expr = f.Expression(sp.printing.ccode(self.Kr_0), t=0, degree=1)
        E_Kr_expr""")],
    "changing the recombination coefficient of a condition between two runs of a model",
    "the second run still uses the first recombination coefficient",
    '''
def tot(m):
    q = F.TotalVolume("solute", 1)
    m.exports = [F.DerivedQuantities([q])]
    m.initialise(); m.run()
    return q.data
def make(Kr):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
    m.materials = F.Material(id=1, D_0=1, E_D=0)
    m.T = 500
    m.boundary_conditions = [F.RecombinationFlux(Kr_0=Kr, E_Kr=0, order=2, surfaces=1)]
    m.initial_conditions = [F.InitialCondition(field=0, value=1)]
    m.dt = F.Stepsize(0.5)
    m.settings = F.Settings(1e-10, 1e-10, final_time=2)
    return m
m = make(1.0)
tot(m)
m.boundary_conditions[0].Kr_0 = 5.0
close(tot(m), tot(make(5.0)))
''')

bug("c21-surface-near", "C21",
    [("meshing/mesh_1d.py", """            if f.near(x0.x(), self.start):
                surface_markers[facet] = 1
            if f.near(x0.x(), self.size):
                surface_markers[facet] = 2""", """            if f.near(x0.x(), self.start, 1e-10):
                surface_markers[facet] = 1
            if f.near(x0.x(), self.size, 1e-10):
                surface_markers[facet] = 2""")],
    "a mesh with vertices within 1e-10 m of an end",
    "interior vertices are marked as surfaces",
    '''
m = F.MeshFromVertices([0, 5e-11, 1e-10, 1e-9, 1e-6])
m.define_markers(F.Materials([F.Material(id=1, D_0=1, E_D=0)]))
a = m.surface_markers.array()
x = m.mesh.coordinates()[:, 0]
if int((a == 1).sum()) != 1 or int((a == 2).sum()) != 1:
    print("FAIL", a); sys.exit(1)
''')

bug("c21-layers-ids-reversed", "C21",
    [("materials/materials.py", """                if isinstance(material.id, list):
                    subdomains = material.id
                else:""", """                if isinstance(material.id, list):
                    subdomains = sorted(material.id)
                else:""")],
    "a material with several layers whose ids are not in increasing order",
    "the layers get each other's ids",
    '''
mats = F.Materials([F.Material(id=[3, 1], D_0=1, E_D=0, borders=[[0, 1], [2, 3]]), F.Material(id=2, D_0=1, E_D=0, borders=[1, 2])])
m = F.MeshFromVertices(np.linspace(0, 3, 7))
m.define_markers(mats)
x = [c.midpoint().x() for c in f.cells(m.mesh)]
got = [m.volume_markers[c] for c in f.cells(m.mesh)]
want = [3 if v < 1 else 2 if v < 2 else 1 for v in x]
close(got, want)
''')

bug("c22-bc-overlap-equal-lists", "C22",
    [("generic_simulation.py", """                if not set(bc.surfaces).isdisjoint(dc_sk_bc.surfaces):""", """                if set(bc.surfaces) <= set(dc_sk_bc.surfaces):""")],
    "a fixed value and another condition that share some but not all surfaces",
    "contradictory conditions with partly overlapping surfaces are accepted",
    '''
m = F.Simulation()
m.mesh = f and F.Mesh(f.UnitSquareMesh(2, 2))
m.boundary_conditions = [F.DirichletBC(surfaces=[1, 2], value=1, field=0), F.DirichletBC(surfaces=[2, 3], value=1, field=0)]
m.T = 500
try:
    m.check_boundary_conditions()
except ValueError:
    sys.exit(0)
print("FAIL: accepted"); sys.exit(1)
''')

bug("c22-consistency-first-two", "C22",
    [("materials/materials.py", "            if value.count(None) not in [0, len(self)]:", "            if len(set(v is None for v in value[:2])) > 1:")],
    "three or more materials of which the last misses a property",
    "inconsistent materials are accepted",
    '''
mats = F.Materials([F.Material(id=i, D_0=1, E_D=0, S_0=1 if i < 3 else None, E_S=0 if i < 3 else None) for i in (1, 2, 3)])
try:
    mats.check_materials(F.Temperature(300))
except ValueError:
    sys.exit(0)
print("FAIL: accepted"); sys.exit(1)
''')

bug("c23-order-dependent-solubility", "C23",
    [("concentration/theta.py", """        henry_to_concentration = self.solution**2 * self.S
        sieverts_to_concentration = self.solution * self.S
""", """        henry_to_concentration = self.solution**2 * self.S
        sieverts_to_concentration = (
            self.solution * self.S
            if self.materials[0].solubility_law == "sievert"
            else henry_to_concentration
        )
""")],
    "conservation of chemical potential, mixed solubility laws with a Henry material listed first and a concentration dependent flux on a Sieverts material",
    "the concentration of Robin-type conditions depends on the order of the materials",
    '''
def run(mats):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(0, 2, 21))
    m.materials = mats
    m.T = 500
    m.boundary_conditions = [F.DirichletBC(surfaces=2, value=12, field=0), F.MassFlux(h_coeff=1, c_ext=0, surfaces=1)]
    m.settings = F.Settings(1e-10, 1e-10, transient=False, chemical_pot=True)
    p = F.PointValue("solute", 0.0)
    m.exports = [F.DerivedQuantities([p])]
    m.initialise(); m.run()
    return p.data
a = lambda: F.Material(id=1, D_0=1, E_D=0, S_0=2, E_S=0.0, borders=[0, 1])
b = lambda: F.Material(id=2, D_0=1, E_D=0, S_0=3, E_S=0.0, borders=[1, 2], solubility_law="henry")
close(run([a(), b()]), run([b(), a()]), 1e-6)
''')
