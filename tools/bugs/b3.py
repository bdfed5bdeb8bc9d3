import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "b1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


SIM = '''
def sim(T=500, mats=None, bcs=(), dt=0.1, final=1.0, x=np.linspace(0, 1, 11), dqs=(), exports=(), traps=None, sources=(), ics=(), atol=1e-10, **st):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(x)
    m.materials = mats or [F.Material(id=1, D_0=1, E_D=0)]
    if traps:
        m.traps = traps
    m.T = T
    m.boundary_conditions = list(bcs)
    m.sources = list(sources)
    m.initial_conditions = list(ics)
    if final is None:
        m.settings = F.Settings(atol, 1e-12, transient=False, **st)
    else:
        m.dt = dt if isinstance(dt, F.Stepsize) else F.Stepsize(dt)
        m.settings = F.Settings(atol, 1e-12, final_time=final, **st)
    m.exports = ([F.DerivedQuantities(list(dqs))] if dqs else []) + list(exports)
    m.initialise(); m.run()
    return m
'''

bug("c01-txt-time-near-milestone", "C01",
    [("generic_simulation.py", "                        if time not in self.dt.milestones:", "                        if not any(\n                            np.isclose(time, milestone, rtol=1e-2)\n                            for milestone in self.dt.milestones\n                        ):")],
    "a TXT export time within one percent of a milestone given by the user",
    "the export time is not added to the milestones and is stepped over",
    SIM + '''
tot = F.TotalVolume("solute", 1)
m = sim(bcs=[F.DirichletBC(1, 1, 0)], dt=F.Stepsize(0.3, stepsize_change_ratio=1.1, dt_min=1e-6, milestones=[0.5]), dqs=[tot], exports=[F.TXTExport("solute", "a.txt", times=[0.503])])
if not any(abs(t - 0.503) < 1e-6 for t in tot.t):
    print("FAIL", tot.t); sys.exit(1)
''')

bug("c15-initial-degree", "C15",
    [("concentration/concentration.py", "            comp = Expression(value, degree=3, t=0)", "            comp = Expression(value, degree=1, t=0)")],
    "conservation of chemical potential and a concentration that is not linear in space",
    "the initial unknown is the projection of an interpolated concentration",
    SIM + '''
q = F.TotalVolume("solute", 1)
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 3))
m.materials = [F.Material(id=1, D_0=1e-12, E_D=0, S_0=2, E_S=0)]
m.T = 500
m.initial_conditions = [F.InitialCondition("solute", 1 + 6 * F.x ** 2)]
m.dt = F.Stepsize(1e-6)
m.settings = F.Settings(1e-3, 1e-10, final_time=1e-6, chemical_pot=True)
m.exports = [F.DerivedQuantities([q])]
m.initialise(); m.run()
close(q.data[-1], 3.0, 1e-6)
''')

bug("c24-filter-exact-class", "C24",
    [("exports/derived_quantities/derived_quantities.py", "                if isinstance(quantity, tuple(instances)):", "                if any(type(quantity) is instance for instance in instances):")],
    "filtering by a base class of the quantities",
    "subclasses are not found",
    '''
a, b = F.SurfaceFluxCylindrical("solute", 1), F.AverageVolume("solute", 1)
dq = F.DerivedQuantities([a, b])
if dq.filter(instances=F.SurfaceFlux) is not a:
    print("FAIL"); sys.exit(1)
''')

bug("c24-find-material-first-id", "C24",
    [("materials/materials.py", """            if mat_id in mat_ids:
                return material
""", """            if mat_id in mat_ids[:2]:
                return material
""")],
    "a material with three ids or more",
    "the material is not found by its later ids",
    '''
m = F.Material(id=[1, 2, 3], D_0=1, E_D=0)
mats = F.Materials([m])
try:
    ok = mats.find_material_from_id(3) is m
except ValueError:
    ok = False
if not ok:
    print("FAIL"); sys.exit(1)
''')

bug("c05-spherical-first-material", "C05",
    [("concentration/mobile.py", """                elif mesh.type == "spherical":
                    r = SpatialCoordinate(mesh.mesh)[0]
                    F += (
                        D
                        * r
                        * r
                        * dot(grad(c_0), grad(self.test_function / r / r))
                        * dx
                    )
""", """                elif mesh.type == "spherical":
                    r = SpatialCoordinate(mesh.mesh)[0]
                    D_sph = materials[0].D_0 * exp(-E_D / k_B / T.T)
                    F += (
                        D_sph
                        * r
                        * r
                        * dot(grad(c_0), grad(self.test_function / r / r))
                        * dx
                    )
""")],
    "a spherical mesh with several materials of different diffusivity",
    "the pre-exponential factor of the first material is used everywhere",
    '''
mesh = f.IntervalMesh(20, 1.0, 2.0)
vm = f.MeshFunction("size_t", mesh, 1, 1)
for c in f.cells(mesh):
    vm[c] = 1 if c.midpoint().x() < 1.5 else 2
sm = f.MeshFunction("size_t", mesh, 0, 0)
for v in f.vertices(mesh):
    sm[v.index()] = 1 if f.near(v.x(0), 1.0) else 2 if f.near(v.x(0), 2.0) else 0
m = F.Simulation()
m.mesh = F.Mesh(mesh, vm, sm, type="spherical")
m.materials = [F.Material(id=1, D_0=1, E_D=0), F.Material(id=2, D_0=5, E_D=0)]
m.T = 500
m.boundary_conditions = [F.DirichletBC(1, 1, 0), F.DirichletBC(2, 0, 0)]
m.settings = F.Settings(1e-10, 1e-10, transient=False)
q = F.PointValue("solute", 1.5)
m.exports = [F.DerivedQuantities([q])]
m.initialise(); m.run()
r1, r2 = (1 - 1 / 1.5) / 1.0, (1 / 1.5 - 0.5) / 5.0
close(q.data[-1], r2 / (r1 + r2), 1e-2)
''')

bug("c06-density-list-one-update", "C06",
    [("concentration/traps/trap.py", """            # add the density to the list of
            # expressions to be updated
            expressions_trap.append(density)
""", """            # add the density to the list of
            # expressions to be updated
            if i == 0 or density is not self.density[-1]:
                expressions_trap.append(density)
""")],
    "a trap described by lists whose last density depends on time",
    "the density of the last material stays at its initial value",
    SIM + '''
m1 = F.Material(id=1, D_0=1, E_D=0, name="a", borders=[0, 0.5]); m2 = F.Material(id=2, D_0=1, E_D=0, name="b", borders=[0.5, 1])
tr = F.Trap([10] * 2, [0] * 2, [1e-6] * 2, [0] * 2, ["a", "b"], [1.0, 1.0 + F.t])
q = F.MaximumVolume("1", 2)
sim(mats=[m1, m2], traps=[tr], bcs=[F.DirichletBC([1, 2], 1, 0)], dt=1.0, final=5.0, dqs=[q])
if not q.data[-1] > 4:
    print("FAIL", q.data); sys.exit(1)
''')

bug("c19-last-mode-any-order", "C19",
    [("exports/xdmf_export.py", "            if nb_iterations % self.mode == 0:", "            if (nb_iterations % self.mode == 0) or (t == final_time):")],
    "every N-th step requested and a number of steps that is not a multiple of N",
    "the last step is exported although it was not asked for",
    SIM + '''
sim(bcs=[F.DirichletBC(1, 1, 0)], dt=0.25, final=1.0, exports=[F.XDMFExport("solute", filename="a.xdmf", mode=2)])
close(F.extract_xdmf_times("a.xdmf"), [0.25, 0.75])
''')

bug("c21-duplicate-vertices-rounded", "C21",
    [("meshing/mesh_from_vertices.py", "        vertices = sorted(np.unique(self.vertices))", "        vertices = sorted(np.unique(np.round(self.vertices, 9)))")],
    "vertices given in metres with nanometre spacing",
    "vertices are rounded and merged",
    '''
m = F.MeshFromVertices([0, 0.4e-9, 0.8e-9, 2e-9])
close(m.mesh.num_vertices(), 4)
''')

bug("c04-source-and-decay-order", "C04",
    [("concentration/mobile.py", """            for volume in volumes:
                F_source += -source.value * self.test_function * dx(volume)
            if isinstance""", """            for volume in set(volumes) if len(self.sources) > 1 else volumes[:1]:
                F_source += -source.value * self.test_function * dx(volume)
            if isinstance""")],
    "a single source named on several volumes",
    "only the first volume receives the source",
    SIM + '''
m1 = F.Material(id=1, D_0=1, E_D=0, borders=[0, 0.5]); m2 = F.Material(id=2, D_0=1, E_D=0, borders=[0.5, 1])
a, b = F.TotalVolume("solute", 1), F.TotalVolume("solute", 2)
sim(mats=[m1, m2], sources=[F.Source(1.0, [1, 2], "solute")], dt=0.5, final=1.0, dqs=[a, b])
close(a.data[-1] + b.data[-1], 1.0, 1e-6)
''')


bug("c02-cap-of-growing-steps", "C02",
    [("stepsize.py", "                if float(self.value) > max_stepsize:", "                if nb_it < 5 and float(self.value) > max_stepsize:")],
    "a maximum step size that becomes smaller than the current step after a step that took five iterations or more",
    "the step is divided by the ratio but not limited",
    '''
s = F.Stepsize(1.0, stepsize_change_ratio=1.1, dt_min=1e-3, max_stepsize=lambda t: 0.5 if t > 1 else None)
s.adapt(10.0, 7, True)
close(float(s.value), 0.5)
''')

bug("c14-density-solved-once-negative", "C14",
    [("concentration/traps/traps.py", "                trap.density_previous_solution.assign(trap.density[0])", "                if trap is self[-1] or len(self) < 3:\n                    trap.density_previous_solution.assign(trap.density[0])")],
    "three traps or more, an extrinsic one that is not the last",
    "its density does not advance beyond the first step",
    SIM + '''
tr = F.NeutronInducedTrap(1, 0, 1, 0, "m", phi=1, K=2, n_max=300, A_0=0, E_A=0.1, absolute_tolerance=1e-12)
m = F.Material(id=1, D_0=1, E_D=0, name="m")
o = lambda: F.Trap(1, 0, 1, 0, "m", 1)
s = sim(mats=[m], traps=[tr, o(), o()], dt=0.25)
close(tr.density[0].vector()[:], 2.0, 2e-2)
''')
