"""Public entry points (frozen from src/spasm.h). Anything else is a helper and is inlined."""
API = """
spasm_field_init
spasm_ZZp_init
spasm_ZZp_add
spasm_ZZp_sub
spasm_ZZp_mul
spasm_ZZp_inverse
spasm_ZZp_axpy
spasm_SHA256_init
spasm_SHA256_update
spasm_SHA256_final
spasm_prng_seed
spasm_prng_seed_simple
spasm_prng_u32
spasm_prng_ZZp
spasm_wtime
spasm_nnz
spasm_malloc
spasm_calloc
spasm_realloc
spasm_csr_alloc
spasm_csr_realloc
spasm_csr_resize
spasm_csr_free
spasm_triplet_alloc
spasm_triplet_realloc
spasm_triplet_free
spasm_dm_alloc
spasm_dm_free
spasm_lu_free
spasm_human_format
spasm_get_num_threads
spasm_get_thread_num
spasm_get_prime
spasm_add_entry
spasm_triplet_transpose
spasm_compress
spasm_triplet_load
spasm_triplet_save
spasm_csr_save
spasm_save_pnm
spasm_transpose
spasm_submatrix
spasm_pvec
spasm_ipvec
spasm_pinv
spasm_permute
spasm_random_permutation
spasm_range_pvec
spasm_scatter
spasm_dfs
spasm_reach
spasm_xApy
spasm_Axpy
spasm_dense_back_solve
spasm_dense_forward_solve
spasm_sparse_triangular_solve
spasm_schur
spasm_schur_estimate_density
spasm_schur_dense
spasm_schur_dense_randomized
spasm_pivots_extract_structural
spasm_maximum_matching
spasm_permute_row_matching
spasm_permute_column_matching
spasm_submatching
spasm_structural_rank
spasm_dulmage_mendelsohn
spasm_strongly_connected_components
spasm_ffpack_rref
spasm_ffpack_LU
spasm_datatype_read
spasm_datatype_write
spasm_datatype_size
spasm_datatype_choose
spasm_datatype_name
spasm_echelonize_init_opts
spasm_echelonize
spasm_rref
spasm_kernel
spasm_kernel_from_rref
spasm_solve
spasm_gesv
spasm_certificate_rank_create
spasm_certificate_rank_verify
spasm_rank_certificate_save
spasm_rank_certificate_load
spasm_factorization_verify
spasm_max
spasm_min
spasm_row_weight
""".split()
