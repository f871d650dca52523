from ..harness import Job
from ._contract import fz
from ._eosopt import h_eos, h_refuse

ASSUMES = ["the root finder meets its contract (C01, C02) and scipy solves its linear systems exactly; replay uses the real ones",
           "the named equations of state are replaced by simple ones, here and in the replay (what they contain: C08, C09)"]


def JOBS(tier):
    F = {"potential_surf": "surface.isopycnal", "potential_diags": "surface.isopycnal", "anomaly_surf": "surface.isopycnal", "anomaly_diags": "surface.isopycnal", "omega_surf": "surface.omega",
         "neutral_trajectory": "traj", "ntp_bottle_to_cast": "traj", "veronis": "label", "mixed_layer": "mixed_layer", "ntp_epsilon_errors": "ntp", "ntp_epsilon_errors_norms": "ntp"}
    js = [Job(w, h_eos, dict(what=w), stubs=fz, bounds="no name and every name, with and without gravity and reference density; 1 or 2 casts of 2 or 3 levels, any salinity, depth",
              funcs=[f + "." + w.replace("_diags", "_surf"), "eos.tools.make_eos", "eos.tools.make_eos_s_t", "lib._process_eos"]) for w, f in F.items()]
    js.append(Job("refuse", h_refuse, {}, stubs=fz, bounds="3 invalid values, every public function", funcs=["eos.tools.make_eos", "lib._process_eos"], witness=False))
    return js
