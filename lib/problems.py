"""parameter sets of the built-in problems (sections to merge into an ini)"""
FACES = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]

HYDRO2D = ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex",
           "rayleigh_taylor", "rising_bubble", "disk"]
HYDRO3D = ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"]
MHD = ["implode", "blast", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"]
RIEMANN = {"Hydro": ["approx", "llf", "hll", "hllc"], "MHD": ["hlld", "hll", "llf"]}
IMPL = {"Hydro_Muscl_2D": [0, 1], "Hydro_Muscl_3D": [0, 1], "MHD_Muscl_2D": [0, 1, 2], "MHD_Muscl_3D": [0, 1, 2]}


def of(solver):
    return MHD if solver.startswith("MHD") else (HYDRO2D if "2D" in solver else HYDRO3D)


def variants(problem, dim, mhd, rng):
    """(sections, mesh overrides, needs) with some parameter variety; centres are kept off cell centres"""
    s, mesh = {}, {}
    if problem == "blast":
        s["blast"] = dict(radius=0.23, center_x=0.4171, center_y=0.5313, center_z=0.4531, density_in=1.3, density_out=0.9,
                          pressure_in=4.0, pressure_out=0.4)
    elif problem == "implode":
        sh = rng.choice([0, 1])
        s["implode"] = dict(shape_region=sh, density_outer=1.0, pressure_outer=1.0, density_inner=0.125,
                            pressure_inner=0.14, vx_outer=rng.choice([0, 0.3]), vy_inner=rng.choice([0, -0.2]),
                            Bx_outer=0.3, By_outer=0.2, Bz_outer=0.1, Bx_inner=0.3, By_inner=0.2, Bz_inner=0.1)
    elif problem == "kelvin_helmholtz":
        k = rng.choice(["perturbation_sine", "perturbation_sine_robertson"])
        s["KH"] = dict(d_in=2.0, d_out=1.0, pressure=2.5, vflow_in=-0.5, vflow_out=0.5, amplitude=0.1, inner_size=0.21,
                       outer_size=0.23, mode=2, w0=0.1, delta=0.05)
        s["KH"].update(perturbation_sine=k == "perturbation_sine", perturbation_sine_robertson=k != "perturbation_sine",
                       perturbation_rand=False)
    elif problem == "gresho_vortex":
        s["Gresho"] = dict(rho0=1.0, Ma=0.3, u=0.1, v=0.2, w=0.05)
    elif problem == "four_quadrant":
        s["riemann2d"] = dict(config_number=rng.randrange(19), x=0.61, y=0.43)
    elif problem == "isentropic_vortex":
        mesh = dict(xmin=-5.0, xmax=5.0, ymin=-5.0, ymax=5.0)
        s["isentropic_vortex"] = dict(density_ambient=1.0, temperature_ambient=1.0, pressure_ambient=1.0, vx_ambient=1.0,
                                      vy_ambient=0.5, center_x=0.37, center_y=-0.61, strength=5.0)
    elif problem == "rayleigh_taylor":
        mesh = dict(xmin=-0.25, xmax=0.25, ymin=-0.75, ymax=0.75, zmin=-0.25, zmax=0.25)
        s["gravity"] = dict(static="true")
        s["rayleigh_taylor"] = dict(amplitude=0.05, d0=1.0, d1=2.0, gx=0.03, gy=-0.2, gz=0.02 if dim == 3 else 0.0)
    elif problem == "rising_bubble":
        s["gravity"] = dict(static="true")
        s["rising_bubble"] = dict(R=0.21, x0=0.47, y0=0.33, z0=0.52, din=1.0, dout=2.0, gx=0.05, gy=-0.3, gz=0.02)
    elif problem == "disk":
        mesh = dict(xmin=-0.5, xmax=0.5, ymin=-0.5, ymax=0.5, zmin=-0.5, zmax=0.5)
        s["gravity"] = dict(point="true", G=1.0, M=1.0, soften=0.05, x=0.013, y=0.021, z=-0.017)
        s["disk"] = dict(radius=0.25, radius_inner=0.05, xc=0.013, yc=0.021, zc=-0.017)
    elif problem == "orszag_tang":
        s["OrszagTang"] = dict(kt=1.0 if dim == 3 else 0.0)
    elif problem == "rotor":
        s["rotor"] = dict(r0=0.13, r1=0.22, u0=2.0, p0=1.0, b0=1.4)
    elif problem == "field_loop":
        mesh = dict(xmin=-1.0, xmax=1.0, ymin=-0.5, ymax=0.5, zmin=-0.5, zmax=0.5)
        s["FieldLoop"] = dict(radius=0.37, density_in=1.5, amplitude=0.3, vflow=1.0, amp=0.0)
    elif problem == "wave":
        mesh = dict(xmin=0.0, xmax=3.0, ymin=0.0, ymax=1.5, zmin=0.0, zmax=1.5)
        s["wave"] = dict(amplitude=0.1, type=rng.randrange(4))
    return s, mesh


def ini(solver, problem, n, bc, rng=None, sections=None, mesh=None, m=(1, 1, 1), tend=1.0, nstepmax=4, riemann=None, impl=0,
        gamma=1.4, cfl=0.5, slope=2.0, noutput=0, extra=None):
    import vt
    ms = dict(nx=n[0], ny=n[1], nz=n[2], xmin=0.0, xmax=1.0, ymin=0.0, ymax=1.0, zmin=0.0, zmax=1.0)
    ms.update(mesh or {})
    for f, c in zip(FACES, bc):
        ms["boundary_type_" + f] = c
    d = dict(run=dict(solver_name=solver, tend=tend, nstepmax=nstepmax, noutput=noutput), mesh=ms,
             hydro=dict(problem=problem, gamma0=gamma, cfl=cfl, niter_riemann=10, iorder=2, slope_type=slope,
                        smallr=1e-8, smallc=1e-8, riemann=riemann or ("hlld" if solver.startswith("MHD") else "hllc")),
             OTHER=dict(implementationVersion=impl), mpi=dict(mx=m[0], my=m[1], mz=m[2]))
    return vt.merge(d, sections or {}, extra or {})
