from symprops.zk import *

MODS = ["zk"]
FUNCTIONS = ["zk::{sch, elog, enc_elg, aff_g, aff_g_star, dec, fac, mod_, prm}::*Proof::verify and everything they call"]


def jobs(tier):
    return all_jobs(tier, "sound")
