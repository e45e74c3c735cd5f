"""Which functions carry which property.  Patterns are matched against `module:Class.name` (shell wildcards);
private helpers of a selected function are always added."""
import fnmatch

PC = "tbplas.builder.primitive:PrimitiveCell."
OS = "tbplas.builder.super:OrbitalSet."
SC = "tbplas.builder.super:SuperCell."
SI = "tbplas.builder.super:SCInterHopping."
SM = "tbplas.builder.sample:Sample."
OV = "tbplas.builder.overlap:Overlap."
OB = "tbplas.builder.base:Observable."
IH = "tbplas.builder.base:IntraHopping."
IN = "tbplas.builder.base:InterHopping."
HD = "tbplas.builder.base:HopDict."
DS = "tbplas.diagonal.base:DiagSolver."
LH = "tbplas.diagonal.lindhard:Lindhard."
SV = "tbplas.tbpm.solver:Solver."
AN = "tbplas.tbpm.analysis:Analyzer."
MP = "tbplas.parallel:MPIEnv."
CF = "tbplas.tbpm.config:"
LT = "tbplas.base.lattice:"
AD = "tbplas.builder.advanced:"


def L(prefix, names):
    return [prefix + n for n in names.split()]


PC_MUT = L(PC, "add_orbital add_orbital_cart set_orbital set_orbital_cart remove_orbital remove_orbitals add_hopping add_hopping_dict remove_hopping trim apply_pbc reset_lattice")
OS_MUT = L(OS, "add_vacancy add_vacancies set_vacancies") + L(SC, "add_hopping set_orb_pos_modifier trim")
IH_MUT = L(IH, "add_hopping remove_hopping remove_orbital remove_orbitals remove_rn purge") + [IN + "add_hopping", OV + "set_onsite", OV + "add_offsite"]

SETS = {
    "C01": [OB + "*"] + PC_MUT + OS_MUT + IH_MUT + ["tbplas.builder.exceptions:LockError.*"],
    "C02": [OB + "*", OS + "__init__", OS + "sync_array", SC + "__init__", SI + "__init__", IN + "__init__",
            "tbplas.builder.primitive:PCInterHopping.__init__", SM + "__init__", SM + "reset_array", SM + "update", OV + "__init__",
            SM + "init_*"],
    "C03": L(PC, "__hash__ _get_attr_hash _update_attr_hash sync_orb sync_hop sync_array orb_pos orb_eng hop_ind hop_eng orb_pos_nm orb_pos_ang dr dr_nm dr_ang")
           + L(PC, "lat_vec origin orbitals hoppings num_orb num_hop") + [SC + "prim_cell", SM + "nr_orbitals", SM + "sc0", IH + "to_array", IH + "to_list"]
           + L(OS, "__hash__ _get_attr_hash _update_attr_hash sync_array orb_id_* num_vac num_orb_sc num_orb_pc") + [SC + "__hash__", SC + "get_*", SC + "pc_*", SC + "sc_*",
            IH + "__hash__", IN + "__hash__", SI + "get_hop", SM + "init_*", SM + "reset_array", SM + "update",
            DS + "_update_array", DS + "calc_*", "tbplas.diagonal.base:Fake*", "tbplas.diagonal.z2:Z2.calc_phases", "tbplas.diagonal.magnetic:SpinTexture.*",
            LH + "calc_*", LH + "_get_dnk", OV + "set_overlap_*", PC + "set_ham_*"],
    "C04": PC_MUT + OS_MUT + IH_MUT + [HD + "*", OB + "lock", OB + "add_subscriber", OB + "unlock"],
    "C05": ["tbplas.builder.base:check_*", PC + "_check*", PC + "get_orbital", PC + "get_hopping", PC + "__init__", PC + "verify_*"] + PC_MUT + OS_MUT + IH_MUT +
           [OS + "__init__", OS + "orb_id_*", OS + "_check*", SC + "__init__", HD + "*", SM + "__init__", SI + "__init__", IN + "__init__", OV + "*",
            IH + "get_hopping", "cython.super:check_id_*", "tbplas.builder.exceptions:*", AD + "extend_prim_cell", AD + "reshape_prim_cell", AD + "spiral_prim_cell",
            LT + "gen_lattice_vectors", SM + "set_k_point", SM + "set_magnetic_field", OB + "lock"],
    "C06": [IH + "*", IN + "*", HD + "*", "tbplas.builder.base:check_conj", PC + "add_hopping", PC + "add_hopping_dict", PC + "get_hopping", PC + "remove_hopping",
            "cython.super:find_equiv_hopping", SC + "add_hopping", SC + "get_hop", SI + "get_hop", OV + "add_offsite", PC + "sync_hop", PC + "hop_*"],
    "C07": ["cython.primitive:set_ham", "cython.sample:build_hop_k", "cython.sample:fill_ham", PC + "set_ham_*", PC + "print_hk", "tbplas.builder.primitive:f_dot_s", PC + "dr*", PC + "sync_*", OV + "set_overlap_*",
            OV + "set_onsite", OV + "add_offsite", SM + "set_k_point", SM + "set_ham_*", DS + "_diag_*", PC + "orb_*", PC + "hop_*"],
    "C08": ["cython.sample:*", SM + "build_*", SM + "set_ham_*", SM + "init_*", SM + "rescale_ham", SM + "set_k_point"],
    "C09": ["cython.super:*", SC + "get_*", SC + "pc_*", SC + "sc_*", SC + "add_hopping", SC + "trim", SC + "set_orb_pos_modifier", SC + "__init__", SI + "*", OS + "*",
            SM + "_get_*", SM + "init_*", SM + "num_*", SM + "reset_array"],
    "C10": ["cython.sample:get_rescale", SM + "rescale*", SM + "energy_range", SM + "set_ham_*", SM + "build_*", SM + "reset_array", SM + "__init__", SM + "init_*", SM + "set_k_point", SM + "set_magnetic_field", SV + "_get_*",
            AN + "calc_*", SV + "calc_*"],
    "C11": ["cython.sample:set_mag_field", SM + "set_magnetic_field", SM + "init_*", SM + "reset_array"],
    "C12": [MP + "*", "tbplas.utils:split_*"],
    "C13": [MP + "*", "tbplas.utils:split_*", DS + "calc_*", LH + "calc_*", "tbplas.diagonal.z2:Z2.calc_phases", SV + "_dist_sample", SV + "calc_*", "tbplas.diagonal.magnetic:SpinTexture.*"],
    "C14": [MP + "*", SV + "_save_data", SV + "set_output", SV + "save_config", SV + "__init__", AN + "calc_*", SV + "calc_*"],
    "C16": [SV + "calc_*", SV + "_get_*", AN + "calc_*", LH + "calc_*", LH + "_get_*", SM + "build_*", SM + "set_*", SM + "init_*", SM + "rescale_ham", SC + "get_*", SC + "trim", SC + "_init*", OS + "sync_array", OS + "orb_id_*",
            PC + "set_ham_*", OV + "set_overlap_*", SI + "get_hop", SC + "add_hopping", "tbplas.visual:Visualizer.plot_wfc3d"],
    "C17": ["cython.lindhard:*", "fortran:prod_dp*", "fortran:dyn_pol_f", "fortran:prod_ac", "fortran:ac_cond_f", LH + "*"],
    "C18": ["fortran:*", SV + "_get_*"],
    "C19": ["tbplas.utils:gen_seeds", "fortran:random_state", "fortran:init_seed", "fortran:tbpm_*", SV + "calc_*", SV + "_dist_sample"],
    "C20": [AD + "SK.*", AD + "AtomicOrbital.*", AD + "SOC.*", AD + "SOCTable.*", AD + "SOCTable2.*"],
    "C21": [SM + "save_array", SM + "load_array", SM + "reset_array", SM + "init_*", SM + "rescale*"],
    "C22": [AD + "*_prim_cell", AD + "make_hetero_layer", AD + "find_neighbors", DS + "calc_*", LH + "calc_*", SV + "calc_*", AN + "calc_*", "tbplas.diagonal.z2:Z2.*", "tbplas.diagonal.magnetic:SpinTexture.*",
            PC + "set_ham_*", SM + "set_ham_*", SM + "build_*", PC + "calc_*", SM + "calc_*", PC + "get_*", LT + "*", SC + "get_*", SI + "get_hop"],
    "C23": [DS + "*", LH + "*", SV + "calc_*", AN + "*", "tbplas.tbpm.analysis:window_*", SM + "build_ham_dxy", SM + "set_magnetic_field", "cython.sample:set_mag_field", SM + "calc_*", PC + "calc_*", PC + "set_ham_*",
            "tbplas.utils:split_*", LT + "*", "tbplas.diagonal.magnetic:SpinTexture.*", "tbplas.diagonal.base:gaussian", "tbplas.diagonal.base:lorentzian", "cython.primitive:set_ham", "fortran:tbpm_*", SC + "get_hop",
            AD + "SOCTable*", AD + "SK.eval", AD + "SOC.eval"],
    "C24": [CF + "*", SV + "calc_*", SV + "_get_*", SV + "set_output", SV + "save_config", SV + "_save_data", SV + "__init__", AN + "*"],
    "C25": [LT + "*", "tbplas.base.kpoints:*", PC + "*_cart", PC + "orb_pos_*", PC + "dr*", PC + "__init__", PC + "reset_lattice", PC + "get_*", SC + "get_lattice*", SC + "get_reciprocal*", LH + "wrap_*", LH + "*2*", LH + "__init__",
            SM + "area_unit_cell", SM + "volume_unit_cell", SM + "extended", DS + "lat_vec", DS + "recip_lat_vec"],
    "C26": [AD + "*_prim_cell", AD + "make_hetero_layer", AD + "OrbitalMap.*", AD + "find_neighbors", PC + "apply_pbc", PC + "trim", PC + "remove_*", PC + "reset_lattice", IH + "remove_*", IH + "purge", SC + "trim", "cython.super:get_orb_id_trim",
            LT + "rotate_coord", "tbplas.builder.primitive:PCInterHopping.*"],
    "C27": ["tbplas.diagonal.base:*", "tbplas.diagonal.lindhard:*", "tbplas.diagonal.magnetic:*", "tbplas.diagonal.z2:*", "cython.lindhard:*", PC + "calc_*", SM + "calc_*", "cython.primitive:set_ham"],
    "C31": ["tbplas.adapter.wannier90:*"],
    "C32": ["tbplas.materials.*"],
    "C33": ["cython.atom:*"],
    "C34": [AD + "ParamFit.*"],
    "C28": ["tbplas.tbpm.analysis:*", "fortran:cond_from_trace", "fortran:current_coefficient", "fortran:fermi_dist", "fortran:jackson_kernel", "fortran:green_function", "fortran:get_gamma_mn", SM + "energy_range", SM + "extended",
            SV + "_get_*", "tbplas.tbpm.config:Config.set_temperature"],
}

MPI_USERS = [MP + "*", DS + "*", LH + "calc_*", LH + "_*", "tbplas.diagonal.z2:Z2.*", "tbplas.diagonal.magnetic:SpinTexture.*", SV + "*", AN + "*"]

for _p, _extra in {
    "C01": [OS + "__init__", SC + "__init__", SI + "__init__", SM + "__init__", IN + "__init__", OV + "__init__"],
    "C04": [SI + "*", OS + "__init__", SC + "__init__"],
    "C05": [AD + "*_prim_cell", AD + "find_neighbors", AD + "OrbitalMap.*", SC + "get_*", PC + "get_*", SM + "set_*"],
    "C06": ["cython.sample:*", "cython.super:*", "cython.primitive:*", PC + "set_ham_*", IH + "*"],
    "C10": [SV + "*"],
    "C12": MPI_USERS, "C13": MPI_USERS, "C14": MPI_USERS,
    "C15": ["cython.lindhard:*", "cython.sample:*", "cython.super:*", "cython.primitive:*", "cython.atom:*", "fortran:*"],
    "C16": ["cython.*", "fortran:*", DS + "*", "tbplas.diagonal.z2:Z2.*", PC + "get_*", PC + "sync_*", AN + "*", SM + "*"],
    "C17": [LH + "*"],
    "C18": [SV + "calc_*", SM + "build_ham_dxy", AN + "calc_*"],
    "C19": [SV + "*", CF + "*", MP + "dist_*"],
    "C21": [SM + "*"],
    "C23": [AD + "*", AN + "*", "tbplas.materials.*"],
}.items():
    SETS[_p] = SETS.get(_p, []) + _extra

# functions outside every claim (plotting, console, test helpers, third-party adapters, demonstration materials)
OUT = ["*:*.__str__", "tbplas.visual:*", "tbplas.builder.visual:*", "*.plot", "*.print", "tbplas.utils:TestHelper*", "tbplas.utils:ProgressBar*", "tbplas.utils:Timer*",
       "cython.super:test_*", "tbplas.builder.advanced:SOC.print_soc_table", "*.overview"]


def select(pid, names):
    out = []
    for n in names:
        if any(fnmatch.fnmatchcase(n, o) for o in OUT):
            continue
        if any(fnmatch.fnmatchcase(n, p) for p in SETS.get(pid, ())):
            out.append(n)
    return out
