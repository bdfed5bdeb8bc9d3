PRE = '''import sys, os, warnings
warnings.filterwarnings("ignore")
import numpy as np, sympy as sp
import fenics as f
f.set_log_level(50)
import festim as F


def close(a, b, rtol=1e-6, atol=0):
    if not np.allclose(a, b, rtol=rtol, atol=atol):
        print("FAIL: got", a, "expected", b)
        sys.exit(1)


'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("c01-txt-times-unsorted", "C01",
    [("generic_simulation.py", """                            self.dt.milestones.append(time)
                    self.dt.milestones.sort()
""", """                            self.dt.milestones.append(time)
""")],
    "a TXT export time that lies before an existing milestone",
    "milestones added by TXT exports are left out of order and skipped by the time marching",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 5))
m.materials = F.Material(id=1, D_0=1, E_D=0)
m.T = 500
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
m.dt = F.Stepsize(0.7, stepsize_change_ratio=1.1, milestones=[5])
m.settings = F.Settings(1e-10, 1e-10, final_time=8)
tot = F.TotalVolume("solute", 1)
dq = F.DerivedQuantities([tot])
m.exports = [dq, F.TXTExport("solute", "a.txt", times=[2.0, 7.5])]
m.initialise(); m.run()
for want in (2.0, 5.0, 7.5, 8.0):
    if not any(abs(t - want) < 1e-6 for t in dq.t):
        print("FAIL: milestone", want, "not in", dq.t)
        sys.exit(1)
''')

bug("c02-dtmin-late", "C02",
    [("stepsize.py", """                self.value.assign(float(self.value) / change_ratio)
                if float(self.value) < dt_min:
                    raise ValueError("stepsize reached minimal value")
            elif nb_it < 5:
""", """                if float(self.value) < dt_min:
                    raise ValueError("stepsize reached minimal value")
                self.value.assign(float(self.value) / change_ratio)
            elif nb_it < 5:
""")],
    "a failed step whose reduced step size falls just below dt_min",
    "a step below dt_min is attempted instead of raising",
    '''
s = F.Stepsize(1.0, stepsize_change_ratio=2.0, dt_min=0.6)
try:
    s.adapt(1.0, 3, False)
except ValueError:
    sys.exit(0)
print("FAIL: step size", float(s.value), "below dt_min")
sys.exit(1)
''')

bug("c03-steady-diverged-silent", "C03",
    [("generic_simulation.py", """        # print final message
        if converged:
            msg = "Solved problem in""", """        # print final message
        if converged or nb_iterations < self.settings.maximum_iterations:
            msg = "Solved problem in"""), ("nonlinear_problem.py", "import fenics as f", "import fenics as f")],
    "", "", "")
BUGS.pop()

bug("c04-henry-previous-solubility", "C04",
    [("concentration/theta.py", "            c_0_n = self.previous_solution**2 * S_n\n        return c_0, c_0_n", "            c_0_n = self.previous_solution**2 * S\n        return c_0, c_0_n")],
    "conservation of chemical potential, a Henry material and a temperature that changes in time",
    "the previous concentration of Henry materials is evaluated with the current temperature: heating creates hydrogen",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0, S_0=2, E_S=0.1, solubility_law="henry")
m.T = 500 + 50 * F.t
m.initial_conditions = [F.InitialCondition(field=0, value=3)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-12, 1e-12, final_time=3, chemical_pot=True)
tot = F.TotalVolume("solute", 1)
m.exports = [F.DerivedQuantities([tot])]
m.initialise(); m.run()
close(tot.data, 3.0)
''')

bug("c05-multi-id-transient", "C05",
    [("concentration/mobile.py", """                dx = mesh.dx(subdomain)
                # transient form
                if dt is not None:
                    F += ((c_0 - c_0_n) / dt.value) * self.test_function * dx
                D = """, """                dx = mesh.dx(subdomain)
                # transient form
                if dt is not None and subdomain == subdomains[0]:
                    F += ((c_0 - c_0_n) / dt.value) * self.test_function * dx
                D = """)],
    "a transient run with a material that has several subdomain ids",
    "the transient term is missing in all subdomains of a material but the first",
    '''
def run(materials):
    m = F.Simulation()
    m.mesh = F.MeshFromVertices(np.linspace(0, 1, 21))
    m.materials = materials
    m.T = 500
    m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
    m.dt = F.Stepsize(0.1)
    m.settings = F.Settings(1e-12, 1e-12, final_time=0.3)
    m.initialise(); m.run()
    return [m.mobile.post_processing_solution(x) for x in np.linspace(0, 1, 21)]
a = run(F.Material(id=1, D_0=0.5, E_D=0, borders=[0, 1]))
b = run(F.Material(id=[1, 2], D_0=0.5, E_D=0, borders=[[0, 0.5], [0.5, 1]]))
close(b, a, 1e-6, 1e-9)
''')

bug("c05-flux-D-of-neighbour-T", "C05",
    [("concentration/mobile.py", """                D = D_0 * exp(-E_D / k_B / T.T)
                if mesh.type == "cartesian":""", """                D = D_0 * exp(-E_D / k_B / (T.T if dt is None else T.T_n))
                if mesh.type == "cartesian":""")],
    "a transient run with a temperature that changes in time",
    "the diffusion coefficient lags one step behind the temperature",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 11))
m.materials = F.Material(id=1, D_0=1, E_D=0.5)
m.T = 300 + 300 * F.t
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-12, 1e-12, final_time=1)
m.initialise(); m.run()
D = np.exp(-0.5 / F.k_B / 600)
# implicit Euler, linear elements, one step from zero
x = np.linspace(0, 1, 11); n = 11; h = 0.1
A = np.zeros((n, n)); M = np.zeros((n, n))
for i in range(n - 1):
    A[i:i + 2, i:i + 2] += D / h * np.array([[1, -1], [-1, 1]])
    M[i:i + 2, i:i + 2] += h / 6 * np.array([[2, 1], [1, 2]])
L = A + M; L[0] = 0; L[0, 0] = 1
b = np.zeros(n); b[0] = 1
close([m.mobile.post_processing_solution(v) for v in x], np.linalg.solve(L, b), 1e-6, 1e-9)
''')

bug("c06-trap-materials-sorted", "C06",
    [("concentration/traps/trap.py", """        for material in self.materials:
            new_materials.append(materials.find_material(material))

        self.materials = new_materials
""", """        wanted = [materials.find_material(material) for material in self.materials]
        # same order as in the model
        for material in materials:
            if material in wanted:
                new_materials += [material] * wanted.count(material)

        self.materials = new_materials
""")],
    "a trap with parameters in lists whose materials are not listed in the order of the model's materials",
    "the parameters of a list-trap are applied to the wrong materials",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 2, 21))
a = F.Material(id=1, D_0=1, E_D=0, borders=[0, 1], name="a")
b = F.Material(id=2, D_0=1, E_D=0, borders=[1, 2], name="b")
m.materials = [a, b]
m.T = 500
m.traps = F.Trap(k_0=[1, 2], E_k=[0, 0], p_0=[1, 1], E_p=[0, 0], density=[10, 30], materials=["b", "a"])
m.boundary_conditions = [F.DirichletBC(surfaces=[1, 2], value=1, field=0)]
m.settings = F.Settings(1e-10, 1e-10, transient=False, traps_element_type="DG")
t1, t2 = F.AverageVolume("1", 1), F.AverageVolume("1", 2)
m.exports = [F.DerivedQuantities([t1, t2])]
m.initialise(); m.run()
close([t1.data[0], t2.data[0]], [2 * 30 / 3, 1 * 10 / 2])
''')

bug("c06-steady-empty-by-name", "C06",
    [("concentration/traps/trap.py", """            for mat in materials:
                if mat not in self.materials:
""", """            for mat in materials:
                if mat.name not in [m.name for m in self.materials]:
""")],
    "steady state, materials without names, a trap that lives in one of them only",
    "c_t is undetermined (singular system) or not emptied outside the materials of the trap",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 2, 21))
a = F.Material(id=1, D_0=1, E_D=0, borders=[0, 1])
b = F.Material(id=2, D_0=1, E_D=0, borders=[1, 2])
m.materials = [a, b]
m.T = 500
m.traps = F.Trap(k_0=1, E_k=0, p_0=1, E_p=0, density=10, materials=a)
m.boundary_conditions = [F.DirichletBC(surfaces=[1, 2], value=1, field=0)]
m.settings = F.Settings(1e-10, 1e-10, transient=False, traps_element_type="DG")
t1, t2 = F.AverageVolume("1", 1), F.AverageVolume("1", 2)
m.exports = [F.DerivedQuantities([t1, t2])]
try:
    m.initialise(); m.run()
except Exception as e:
    print("FAIL", type(e)); sys.exit(1)
close([t1.data[0], t2.data[0]], [5, 0], 1e-6, 1e-9)
''')

bug("c07-step-temperature-steady", "C07",
    [("temperature/temperature.py", """        return "t" not in sp.printing.ccode(self.value)""",
      """        value = sp.sympify(self.value)
        # the temperature is steady if its time derivative is zero
        return value.diff(sp.Symbol("t")) == 0""")],
    "conservation of chemical potential and a temperature that is piecewise constant in time",
    "a step history of the temperature is taken for a steady one and the solubility of the reported concentration frozen",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0, S_0=2, E_S=0.1)
m.T = sp.Piecewise((500, F.t < 1.5), (700, True))
m.initial_conditions = [F.InitialCondition(field=0, value=3)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-12, 1e-12, final_time=3, chemical_pot=True)
tot = F.TotalVolume("solute", 1)
m.exports = [F.DerivedQuantities([tot])]
m.initialise(); m.run()
close(tot.data, 3.0)
''')

bug("c07-henry-dirichlet-root", "C07",
    [("boundary_conditions/dirichlets/dirichlet_bc.py", """            value[0] = (c / S + f.DOLFIN_EPS) ** 0.5""",
      """            value[0] = (c + f.DOLFIN_EPS) ** 0.5 / S""")],
    "", "", "")
BUGS.pop()

bug("c08-soret-spherical-theta", "C08",
    [("concentration/mobile.py", """                            * dot(
                                Q * c_0 / (k_B * T.T**2) * grad(T.T),
                                grad(self.test_function / r / r),
                            )""", """                            * dot(
                                Q * self.solution / (k_B * T.T**2) * grad(T.T),
                                grad(self.test_function / r / r),
                            )""")],
    "spherical coordinates, the Soret effect and conservation of chemical potential together",
    "the thermo-diffusion flux is computed with theta instead of c",
    '''
Q, L = 0.3, 1.0
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(1, 2, 81), type="spherical")
m.materials = F.Material(id=1, D_0=1, E_D=0, S_0=5, E_S=0.1, Q=Q, borders=[0, 2])
m.T = 400 + 200 * (F.x - 1)
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0)]
m.settings = F.Settings(1e-12, 1e-12, transient=False, chemical_pot=True, soret=True)
p = F.PointValue("solute", 2.0)
m.exports = [F.DerivedQuantities([p])]
m.initialise(); m.run()
# no flux: grad c / c = -Q/(kB T^2) grad T -> c = c0 exp(Q/kB (1/T - 1/T0))
close(p.data[0], np.exp(Q / F.k_B * (1 / 600 - 1 / 400)), 1e-2)
''')

bug("c09-rho-of-previous-T", "C09",
    [("temperature/temperature_solver.py", """                if callable(rho):
                    rho = rho(T)""", """                if callable(rho):
                    rho = rho(T_n)""")],
    "transient heat transfer with a temperature dependent density",
    "the density is evaluated at the temperature of the previous step",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0, thermal_cond=1, heat_capacity=1, rho=lambda T: T / 100)
m.T = F.HeatTransferProblem(transient=True, initial_condition=300, absolute_tolerance=1e-9)
m.sources = [F.Source(600, volume=1, field="T")]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=1)
m.initialise(); m.run()
# T (T - 300) = 60000
close(m.T.T(0.5), 150 + (150**2 + 60000) ** 0.5)
''')

bug("c09-heat-source-list-volume", "C09",
    [("temperature/temperature_solver.py", """            for volume in volumes:
                self.F += -source.value * v_T * mesh.dx(volume)
""", """            volume = volumes[0]
            self.F += -source.value * v_T * mesh.dx(volume)
""")],
    "a heat source given for a list of volumes",
    "the heat source only acts in the first of its volumes",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 2, 21))
m.materials = [F.Material(id=i + 1, D_0=1, E_D=0, thermal_cond=1, heat_capacity=1, rho=1, borders=[i, i + 1]) for i in range(2)]
m.T = F.HeatTransferProblem(transient=True, initial_condition=300, absolute_tolerance=1e-9)
m.sources = [F.Source(10, volume=[1, 2], field="T")]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=2)
m.initialise(); m.run()
close([m.T.T(x) for x in (0.1, 1.0, 1.9)], 320)
''')

bug("c10-mass-transfer-coefficient", "C10",
    [("boundary_conditions/fluxes/mass_flux.py", "self.sub_expressions = [h_coeff, c_ext]", "self.sub_expressions = [c_ext]")],
    "a mass transfer coefficient that depends on time",
    "the mass transfer coefficient is frozen at its value at t=0",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0)
m.T = 500
m.boundary_conditions = [F.MassFlux(h_coeff=0.1 * F.t, c_ext=2, surfaces=2)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=3)
tot = F.TotalVolume("solute", 1)
c2 = F.PointValue("solute", 1.0)
m.exports = [F.DerivedQuantities([tot, c2])]
m.initialise(); m.run()
# inventory change = flux in
gain = np.diff([0] + tot.data)
close(gain, [0.1 * t * (2 - c) for t, c in zip((1, 2, 3), c2.data)])
''')

bug("c10-custom-flux-shared-params", "C10",
    [("boundary_conditions/fluxes/flux_custom.py", """        self.sub_expressions += [expression for expression in self.prms.values()]
""", """        self.sub_expressions += [
            expression
            for expression in self.prms.values()
            if expression not in self.sub_expressions
        ][:1]
""")],
    "a user defined flux with several time dependent parameters",
    "only the first parameter of a user defined flux follows the time",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0)
m.T = 500
m.boundary_conditions = [F.CustomFlux(surfaces=1, function=lambda T, c, a, b: a + b, field=0, a=F.t, b=3 * F.t)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=2)
tot = F.TotalVolume("solute", 1)
m.exports = [F.DerivedQuantities([tot])]
m.initialise(); m.run()
close(tot.data, [4, 12])
''')

bug("c11-implantation-depth-frozen", "C11",
    [("boundary_conditions/dirichlets/dc_imp.py", "        sub_expressions = [phi, R_p]\n", "        sub_expressions = [phi]\n")],
    "an implantation condition whose depth depends on time",
    "the implantation depth of the boundary value is frozen at t=0",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
m.materials = F.Material(id=1, D_0=1, E_D=0)
m.T = 500
m.boundary_conditions = [F.ImplantationDirichlet(surfaces=1, phi=2, R_p=1 + F.t, D_0=4, E_D=0)]
m.dt = F.Stepsize(1)
m.settings = F.Settings(1e-10, 1e-10, final_time=3)
p = F.PointValue("solute", 0.0)
m.exports = [F.DerivedQuantities([p])]
m.initialise(); m.run()
close(p.data, [1.0, 1.5, 2.0])
''')

bug("c11-theta-material-of-first", "C11",
    [("boundary_conditions/dirichlets/dirichlet_bc.py", """        S = S_0 * f.exp(-E_S / k_B / self._T(x))
        if material.solubility_law == "sievert":
            value[0] = c / S""", """        S = S_0 * f.exp(-E_S / k_B / self._T(x))
        if self._materials[0].solubility_law == "sievert":
            value[0] = c / S""")],
    "conservation of chemical potential with a Sieverts first material and a fixed value on a Henry material",
    "a fixed concentration on a Henry material is imposed as c = (c/S)^2 S",
    '''
m = F.Simulation()
m.mesh = F.MeshFromVertices(np.linspace(0, 2, 21))
m.materials = [F.Material(id=1, D_0=1, E_D=0, S_0=2, E_S=0.0, borders=[0, 1]),
               F.Material(id=2, D_0=1, E_D=0, S_0=3, E_S=0.0, borders=[1, 2], solubility_law="henry")]
m.T = 500
m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0), F.DirichletBC(surfaces=2, value=12, field=0)]
m.settings = F.Settings(1e-10, 1e-10, transient=False, chemical_pot=True)
p = F.PointValue("solute", 2.0)
m.exports = [F.DerivedQuantities([p])]
m.initialise(); m.run()
close(p.data, [12.0], 1e-3)
''')
