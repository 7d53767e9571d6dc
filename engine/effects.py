"""What each public operation may modify or release through its arguments (frozen interface contract)."""

# name -> set of argument positions that the operation may write through
WRITES = {
    "spasm_field_init": {1},
    "spasm_SHA256_init": {0}, "spasm_SHA256_update": {0}, "spasm_SHA256_final": {0, 1},
    "spasm_prng_seed": {3}, "spasm_prng_seed_simple": {3}, "spasm_prng_u32": {0}, "spasm_prng_ZZp": {0},
    "spasm_realloc": {0}, "spasm_csr_realloc": {0}, "spasm_csr_resize": {0}, "spasm_csr_free": {0},
    "spasm_triplet_realloc": {0}, "spasm_triplet_free": {0}, "spasm_dm_free": {0}, "spasm_lu_free": {0},
    "spasm_human_format": {1},
    "spasm_add_entry": {0}, "spasm_triplet_transpose": {0},
    "spasm_triplet_load": {0, 2}, "spasm_triplet_save": {1}, "spasm_csr_save": {1}, "spasm_save_pnm": {1},
    "spasm_pvec": {2}, "spasm_ipvec": {2}, "spasm_range_pvec": {0, 3},
    "spasm_scatter": {3}, "spasm_dfs": {3, 4, 5}, "spasm_reach": {4},
    "spasm_xApy": {2}, "spasm_Axpy": {2},
    "spasm_dense_back_solve": {1, 2}, "spasm_dense_forward_solve": {1, 2}, "spasm_sparse_triangular_solve": {3, 4},
    "spasm_schur": {5, 7}, "spasm_schur_dense": {4, 5, 7, 8}, "spasm_schur_dense_randomized": {5, 7},
    "spasm_pivots_extract_structural": {2, 3},
    "spasm_maximum_matching": {1, 2},
    "spasm_ffpack_rref": {3, 6}, "spasm_ffpack_LU": {3, 6, 7}, "spasm_datatype_write": {0},
    "spasm_echelonize_init_opts": {0}, "spasm_echelonize": {1},
    "spasm_rref": {1}, "spasm_solve": {2}, "spasm_gesv": {2},
    "spasm_rank_certificate_save": {1}, "spasm_rank_certificate_load": {0, 1},
}
# operations releasing (all of) the object passed at that position
RELEASES = {
    "free": 0, "realloc": 0, "spasm_realloc": 0, "spasm_csr_free": 0, "spasm_triplet_free": 0, "spasm_dm_free": 0,
    "spasm_lu_free": 0,
}
# positions of public operations that are FILE streams
STREAMS = {"spasm_triplet_load": {0}, "spasm_triplet_save": {1}, "spasm_csr_save": {1}, "spasm_save_pnm": {1},
           "spasm_rank_certificate_save": {1}, "spasm_rank_certificate_load": {0}}

# external functions writing through pointer arguments: name -> positions ('*' = every pointer from that position on)
EXT_WRITES = {
    "memset": {0}, "memcpy": {0}, "memmove": {0}, "llvm.memset.p0.i64": {0}, "llvm.memcpy.p0.p0.i64": {0},
    "llvm.memmove.p0.p0.i64": {0},
    "fscanf": ("*", 2), "__isoc99_fscanf": ("*", 2), "sscanf": ("*", 2), "__isoc99_sscanf": ("*", 2),
    "scanf": ("*", 1), "fread": {0}, "fgets": {0}, "getline": {0, 1}, "sprintf": {0}, "snprintf": {0},
    "vsprintf": {0}, "vsnprintf": {0}, "strcpy": {0}, "strncpy": {0}, "strcat": {0}, "strncat": {0},
    "qsort": {0}, "free": {0}, "realloc": {0}, "gettimeofday": {0, 1}, "time": {0}, "strtok": {0},
    "strtol": {1}, "strtoll": {1}, "strtoull": {1}, "strtod": {1}, "frexp": {1}, "modf": {1},
    "strtoul": {1}, "clock_gettime": {1}, "argp_parse": ("*", 4),
    "__kmpc_for_static_init_4": ("*", 3), "__kmpc_for_static_init_4u": ("*", 3),
    "__kmpc_for_static_init_8": ("*", 3), "__kmpc_for_static_init_8u": ("*", 3),
    "__kmpc_dispatch_next_4": ("*", 2), "__kmpc_dispatch_next_4u": ("*", 2), "__kmpc_dispatch_next_8": ("*", 2),
    "__kmpc_dispatch_next_8u": ("*", 2),
}
FORKS = ("__kmpc_fork_call", "__kmpc_fork_call_if")


def written_positions(name, nargs):
    if name in WRITES:
        return WRITES[name]
    if name in EXT_WRITES:
        e = EXT_WRITES[name]
        if isinstance(e, tuple):
            return set(range(e[1], nargs))
        return e
    return set()


_cache = {}


def call_effects(unit, i):
    """locations (prefix closed) possibly modified by call instruction i"""
    k = (id(unit), id(i))
    r = _cache.get(k)
    if r is not None:
        return r
    n = i.callee_name()
    out = set()
    if n in FORKS:
        g = i.ops[2]
        if g.kind == "func":
            for x in g.insts():
                if x.op == "store":
                    out |= unit.of(x.ops[1])
                elif x.op in ("atomicrmw", "cmpxchg"):
                    out |= unit.of(x.ops[0])
                elif x.op == "call":
                    out |= call_effects(unit, x)
    elif n:
        for p in written_positions(n, len(i.ops)):
            if p < len(i.ops) and i.ops[p].type == "ptr":
                out |= unit.of(i.ops[p])
        if n in ("spasm_echelonize",):
            pass
    _cache[k] = out
    return out
