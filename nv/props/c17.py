from ..harness import Job
from ._contract import fz
from ._surf import h_history, h_surf

ASSUMES = ["the root finder meets its contract (C01, C02); replay uses the real one"]


def JOBS(tier):
    q = tier == "quick"
    F = ["surface.isopycnal.potential_surf", "surface.isopycnal.anomaly_surf", "surface.isopycnal._isopycnal", "surface.isopycnal._check_ref", "surface.isopycnal._choose_ref_isoval",
         "surface._vertsolve._make_vertsolve", "surface._vertsolve._vertsolve", "surface._vertsolve._zero_potential", "surface._vertsolve._zero_anomaly", "lib._process_casts", "lib._process_eos", "lib._process_pin_cast"]
    js = [Job("history", h_history, dict(interps=("linear",)), stubs=fz, bounds="2 surfaces in a row of either kind with either of 2 equations of state of one name, any isovalue", funcs=F),
          Job("history-interp", h_history, dict(sym=not q), stubs=fz, bounds="2 surfaces in a row with either interpolant, one kind and isovalue (thorough: any kind, equation of state, isovalue)", funcs=F)]
    for ans in ("potential", "anomaly"):
        for mode in ("ref+iso", "ref+pin", "pin", "ref+iso+pin", "iso+pin"):
            js.append(Job(f"{ans}-{mode}", h_surf, dict(ans=ans, mode=mode), stubs=fz, bounds="2 casts of 2 levels, any S, T, reference, isovalue, pin", funcs=F))
        js.append(Job(f"{ans}-kinds", h_surf, dict(ans=ans, mode="ref+iso", shape=(1,), nk=3, kinds=("full", "land", "one", "shallow", "cavity")), stubs=fz, bounds="1 cast of 3 levels with any of 5 NaN patterns, any S, T", funcs=F))
        js.append(Job(f"{ans}-kinds-pin", h_surf, dict(ans=ans, mode="pin", shape=(1,), nk=4, symT=False, kinds=("full", "shallow", "cavity")), stubs=fz, bounds="the pinning cast of 4 levels with any of 3 NaN patterns, any S, pin", funcs=F))
        js.append(Job(f"{ans}-layout", h_surf, dict(ans=ans, mode="pin", shape=(2, 2) if not q else (2, 1), nk=2, p3d=True, vd=1, symT=False), stubs=fz, bounds="2 x 1 (2 x 2) casts with their own levels, vertical dimension in the middle, any S, pin", funcs=F))
        js.append(Job(f"{ans}-diags", h_surf, dict(ans=ans, mode="pin", shape=(2,), nk=2, vd=0, diags=True, kinds=("full", "land")), stubs=fz, bounds="2 casts (any may be land), vertical dimension first, diagnostics on, any S, T, pin", funcs=F + ["ntp.ntp_epsilon_errors_norms"]))
        js.append(Job(f"{ans}-levels3", h_surf, dict(ans=ans, mode="pin", shape=(2,), nk=3, symT=not q), stubs=fz, bounds="2 casts of 3 levels, any S (T) and pin", funcs=F))
        js.append(Job(f"{ans}-pchip", h_surf, dict(ans=ans, mode="ref+iso", shape=(1,), nk=3, interp="pchip", symT=False, symS=not q), stubs=fz, bounds="1 cast of 3 levels, PCHIP, any reference and isovalue (thorough: any S)", funcs=F))
        js.append(Job(f"{ans}-pchip-pin", h_surf, dict(ans=ans, mode="pin", shape=(1,), nk=3, interp="pchip", symT=False, symS=not q), stubs=fz, bounds="1 cast of 3 levels, PCHIP, any pin (thorough: any S)", funcs=F))
        js.append(Job(f"{ans}-long", h_surf, dict(ans=ans, mode="ref+iso", shape=(1,), nk=8, symT=False, symS=(4,), kinds=("full", "shallow")), stubs=fz, bounds="1 cast of 8 (7 valid) levels, any S of one level, any reference and isovalue", funcs=F))
        js.append(Job(f"{ans}-long-pin", h_surf, dict(ans=ans, mode="pin", shape=(2,), nk=7, symT=False, symS=()), stubs=fz, bounds="2 fixed casts of 7 levels, any pin", funcs=F))
        js.append(Job(f"{ans}-memory", h_surf, dict(ans=ans, mode="pin", shape=(2, 2), nk=2, symT=False, symS=(), p3d=True, lay="any"), stubs=fz, bounds="2 x 2 fixed casts with their own levels, any of 4 combinations of memory layouts, any pin", funcs=F))
        js.append(Job(f"{ans}-grid", h_surf, dict(ans=ans, mode="ref+iso", shape=(2, 3), nk=2, symT=False, symS=()), stubs=fz, bounds="2 x 3 fixed casts of 2 levels, any reference and isovalue", funcs=F))
        if not q:
            js.append(Job(f"{ans}-levels4", h_surf, dict(ans=ans, mode="ref+iso", shape=(1,), nk=4, kinds=("full", "shallow", "cavity")), stubs=fz, bounds="1 cast of 4 levels", funcs=F))
            js.append(Job(f"{ans}-many", h_surf, dict(ans=ans, mode="pin", shape=(2, 2), nk=3, symT=False, kinds=("full", "land", "shallow")), stubs=fz, bounds="2x2 casts of 3 levels", funcs=F))
    return js
