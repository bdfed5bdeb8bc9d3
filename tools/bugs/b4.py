import os, importlib.util
_s = importlib.util.spec_from_file_location("b3", os.path.join(os.path.dirname(__file__), "b3.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, SIM = _m.PRE, _m.SIM
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("c03-expressions-forward-only", "C03",
    [("helpers.py", "        expression.t = t\n", "        # time only goes forward\n        if t > getattr(expression, \"t\", 0) or t == 0:\n            expression.t = t\n")],
    "a failed solve that is retried at an earlier time, with a time dependent boundary value",
    "the retried step keeps the boundary value of the failed attempt",
    SIM + '''
q = F.MinimumSurface("solute", 1)
class Once(f.NewtonSolver):
    n = 0
    def solve(self, p, v):
        Once.n += 1
        if Once.n == 2:
            return 30, False
        return f.NewtonSolver.solve(self, p, v)
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 11))
m.materials = [F.Material(id=1, D_0=1, E_D=0)]
m.T = 500
m.boundary_conditions = [F.DirichletBC(1, 1 + F.t, 0)]
m.dt = F.Stepsize(0.25, stepsize_change_ratio=2, dt_min=1e-5, max_stepsize=0.25)
m.settings = F.Settings(1e-10, 1e-10, final_time=1.0)
m.exports = [F.DerivedQuantities([q])]
m.initialise()
old = m.h_transport_problem.newton_solver
s = Once()
for k in ("error_on_nonconvergence", "absolute_tolerance", "relative_tolerance"):
    s.parameters[k] = old.parameters[k]
m.h_transport_problem.newton_solver = s
m.run()
close(q.data, [1 + t for t in q.t])
''')

bug("c06-density-degree", "C06",
    [("concentration/traps/trap.py", """                            degree=2,
                            t=0,""", """                            degree=1,
                            t=0,""")],
    "a trap density that is not linear in space on a coarse mesh",
    "the density is replaced by its linear interpolant",
    SIM + '''
q = F.TotalVolume("1", 1)
m = F.Material(id=1, D_0=1, E_D=0, name="m")
sim(mats=[m], x=np.linspace(0, 1, 3), traps=[F.Trap(1, 0, 1e-8, 0, "m", 1 + 6 * F.x ** 2)], bcs=[F.DirichletBC([1, 2], 1, 0)], dt=10.0, final=100.0, dqs=[q])
close(q.data[-1], 3.0, 1e-3)
''')

bug("c08-heat-of-transport-previous", "C08",
    [("concentration/mobile.py", """                            Q = Q(T.T)
                        F += (
                            r
                            * dot(""", """                            Q = Q(T.T_n)
                        F += (
                            r
                            * dot(""")],
    "cylindrical mesh, heat of transport given as a function and temperature changing in time",
    "the heat of transport is that of the previous temperature",
    SIM + '''
def run(Q):
    mesh = f.IntervalMesh(20, 1.0, 2.0)
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(1, 2, 21), type="cylindrical")
    m.materials = [F.Material(id=1, D_0=1, E_D=0, Q=Q)]
    m.T = F.Temperature(300 + 100 * F.x + 200 * F.t)
    m.initial_conditions = [F.InitialCondition("solute", 1.0)]
    m.dt = F.Stepsize(1.0)
    m.settings = F.Settings(1e-10, 1e-10, final_time=1.0, soret=True)
    q = F.PointValue("solute", 2.0)
    m.exports = [F.DerivedQuantities([q])]
    m.initialise(); m.run()
    return q.data[-1]
# the temperature of the only step: 500 + 100 x (heat of transport as a field of that step)
a = run(lambda T: 1e-3 * T)
class S(F.Temperature):
    def create_functions(self, mesh):
        super().create_functions(mesh)
        self.T.assign(f.interpolate(f.Expression("500 + 100*x[0]", degree=1), self.T.function_space()))
        self.T_n.assign(self.T)
def run2():
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(1, 2, 21), type="cylindrical")
    m.materials = [F.Material(id=1, D_0=1, E_D=0, Q=lambda T: 1e-3 * T)]
    m.T = F.Temperature(500 + 100 * F.x)
    m.initial_conditions = [F.InitialCondition("solute", 1.0)]
    m.dt = F.Stepsize(1.0)
    m.settings = F.Settings(1e-10, 1e-10, final_time=1.0, soret=True)
    q = F.PointValue("solute", 2.0)
    m.exports = [F.DerivedQuantities([q])]
    m.initialise(); m.run()
    return q.data[-1]
close(a, run2(), 1e-6)
''')

bug("c09-fluid-temperature-frozen", "C09",
    [("boundary_conditions/fluxes/convective_flux.py", "        self.sub_expressions = [h_coeff, T_ext]", "        self.sub_expressions = [h_coeff]")],
    "a convective flux whose fluid temperature depends on time",
    "the fluid temperature stays at its initial value",
    SIM + '''
q = F.AverageVolume("T", 1)
T = F.HeatTransferProblem(transient=True, initial_condition=300)
sim(T=T, mats=[F.Material(id=1, D_0=1, E_D=0, thermal_cond=1, rho=1, heat_capacity=1)], bcs=[F.ConvectiveFlux(1e6, 300 + 100 * F.t, [1, 2])], dt=1.0, final=20.0, dqs=[q])
if not q.data[-1] > 2000:
    print("FAIL", q.data[-1]); sys.exit(1)
''')

bug("c10-dissociation-energy-frozen", "C10",
    [("boundary_conditions/fluxes/dissociation_flux.py", "        self.sub_expressions = [Kd_0_expr, E_Kd_expr, P_expr]", "        self.sub_expressions = [Kd_0_expr, P_expr]")],
    "an activation energy of dissociation that depends on time",
    "it stays at its initial value",
    SIM + '''
q = F.TotalVolume("solute", 1)
sim(bcs=[F.DissociationFlux(1.0, 0.1 * F.t, 1.0, 1)], dt=1.0, final=2.0, dqs=[q])
close(q.data, np.cumsum([np.exp(-0.1 * t / F.k_B / 500) for t in (1.0, 2.0)]), 1e-6)
''')

bug("c13-width-at-start", "C13",
    [("sources/source_implantation_flux.py", "            1\n            / (self.width * (2 * np.pi) ** 0.5)", "            1\n            / (sp.sympify(self.width).subs(t, 0) * (2 * np.pi) ** 0.5)"),
     ("sources/source_implantation_flux.py", "from festim import Source, x\n", "from festim import Source, x, t\n")],
    "an implantation width that depends on time",
    "the distribution is not normalised: the implanted flux is not the one given",
    SIM + '''
q = F.TotalVolume("solute", 1)
sim(x=np.linspace(0, 1, 201), sources=[F.ImplantationFlux(1.0, 0.5, 0.02 * (1 + F.t), 1)], dt=1.0, final=2.0, dqs=[q])
close(q.data, [1.0, 2.0], 1e-3)
''')

bug("c17-time-rounded", "C17",
    [("exports/derived_quantities/derived_quantities.py", "        row = [t]\n", "        row = [round(t, 6)]\n")],
    "a simulation of less than a millisecond",
    "times of the table are rounded to a microsecond",
    SIM + '''
q = F.AverageVolume("solute", 1)
m = sim(bcs=[F.DirichletBC(1, 1, 0)], dt=1e-7, final=3e-7, dqs=[q])
close([r[0] for r in m.exports[0].data[1:]], q.t)
''')

bug("c18-steady-of-first", "C18",
    [("exports/txt_export.py", "            solution_column = np.transpose(solution.vector()[:])", "            solution_column = np.transpose(np.maximum(solution.vector()[:], 0))")],
    "a field with negative values",
    "negative values are exported as zero",
    SIM + '''
sim(bcs=[F.DirichletBC(1, -1, 0), F.DirichletBC(2, 1, 0)], final=None, exports=[F.TXTExport("solute", "a.txt")])
close(np.loadtxt("a.txt", delimiter=",", skiprows=1)[0, 1], -1)
''')

bug("c20-flux-temperature-kept", "C20",
    [("generic_simulation.py", "                        q.T = self.T.T", "                        if getattr(q, \"T\", None) is None:\n                            q.T = self.T.T")],
    "Soret effect, a model initialised a second time with another temperature",
    "the surface flux is computed with the first temperature",
    SIM + '''
q = F.SurfaceFlux("solute", 2)
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 11))
m.materials = [F.Material(id=1, D_0=1, E_D=0, Q=1.0)]
m.T = 300 + 400 * F.x
m.boundary_conditions = [F.DirichletBC([1, 2], 1, 0)]
m.settings = F.Settings(1e-10, 1e-10, transient=False, soret=True)
m.exports = [F.DerivedQuantities([q])]
m.initialise(); m.run(); a = q.data[-1]
m.T = 900 - 500 * F.x
m.initialise(); m.run(); b = q.data[-1]
q2 = F.SurfaceFlux("solute", 2)
m.exports = [F.DerivedQuantities([q2])]
m.initialise(); m.run()
close(b, q2.data[-1], 1e-8)
''')

bug("c21-border-of-next", "C21",
    [("materials/materials.py", "                    if borders[0] <= x <= borders[1]:", "                    if round(borders[0], 12) <= x <= round(borders[1], 12):")],
    "layers thinner than a picometre or borders with more than twelve decimals",
    "cells near the border belong to no material",
    '''
L = 3.4e-12
m = F.MeshFromVertices(np.linspace(0, L, 35))
mats = F.Materials([F.Material(id=1, D_0=1, E_D=0, borders=[0, L / 2]), F.Material(id=2, D_0=1, E_D=0, borders=[L / 2, L])])
m.define_measures(mats)
close(sorted(set(int(k) for k in m.volume_markers.array())), [1, 2])
close(sum(int(k) == 1 for k in m.volume_markers.array()), 17)
''')

bug("c22-initial-condition-heat", "C22",
    [("temperature/temperature_solver.py", "        if self.transient and self.initial_condition is None:", "        if self.transient and self.initial_condition is None and not self.boundary_conditions:")],
    "a transient heat problem without initial condition, with boundary conditions",
    "it is accepted and starts from zero kelvin",
    SIM + '''
try:
    sim(T=F.HeatTransferProblem(transient=True), mats=[F.Material(id=1, D_0=1, E_D=0, thermal_cond=1, rho=1, heat_capacity=1)], bcs=[F.DirichletBC([1, 2], 500, "T")])
except AttributeError:
    sys.exit(0)
print("FAIL"); sys.exit(1)
''')

bug("c24-missing-name", "C24",
    [("materials/materials.py", "            if material.name == name:", "            if material.name and material.name.startswith(name):")],
    "two materials, the name of one being the beginning of the other's",
    "the lookup by name returns the wrong material",
    '''
a, b = F.Material(1, 1, 0, name="W_damaged"), F.Material(2, 1, 0, name="W")
if F.Materials([a, b]).find_material("W") is not b:
    print("FAIL"); sys.exit(1)
''')
