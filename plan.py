"""What each check runs: facets, configurations and case counts."""

# name: (compiler, flags, intrinsics, popcnt, clock/memory options)
CONFIGS = {
    "dbg":    dict(cxx="g++", flags="-O2 -g1", intr=1, pop=0, mem=3072),
    "ndebug": dict(cxx="g++", flags="-O3 -DNDEBUG", intr=1, pop=0, mem=3072),
    "port":   dict(cxx="g++", flags="-O2 -g1", intr=0, pop=0, mem=3072),
    "popcnt": dict(cxx="g++", flags="-O2 -DNDEBUG -msse4.2", intr=1, pop=1, mem=3072),
    "pinned": dict(cxx="g++", flags="-O2 -g1", intr=1, pop=0, mem=3072, src="pinned"),
    "clang":  dict(cxx="clang++", flags="-O2 -DNDEBUG", intr=1, pop=0, mem=3072),
    "asan":   dict(cxx="g++", flags="-O1 -g1 -fsanitize=address,bounds -fno-sanitize-recover=bounds -fno-omit-frame-pointer", intr=1, pop=0, mem=0),
    "tsan":   dict(cxx="g++", flags="-O1 -g1 -fsanitize=thread", intr=1, pop=0, mem=0),
    "fuzz":   dict(cxx="clang++", flags="-O1 -g1 -fsanitize=fuzzer,address -DENGINE_LIBFUZZER", intr=1, pop=0, mem=0),
}


def F(harness, facet, quick, configs="dbg ndebug port popcnt", share=None, thorough=30, scale=1, **opt):
    """quick: number of cases over all configurations of the quick tier.
    The first configuration gets half of them, the others share the rest.
    thorough: multiplier of the thorough tier (None: quick tier only);
    quick=0: thorough only, `cases` says how many."""
    return dict(h=harness, f=facet, quick=quick, configs=configs.split(), thorough=thorough, scale=scale, **opt)


CORE = "dbg ndebug port popcnt"
HUGE = dict(mem=9000, workers=2, case_cpu=120)

# one case of more than 2^32 elements
MANY = dict(mem=6000, workers=1, case_cpu=300)
HUGE4 = dict(mem=6000, workers=4, case_cpu=120)

CHECKS = {
    "C01": [F("h_bits", "builder_history", 3000000, "dbg ndebug"), F("h_bits", "builder_large", 60000, "dbg ndebug"),
            F("h_huge", "huge_builder", 12, "ndebug", thorough=6, **HUGE4)],
    "C02": [F("h_bits", "reads", 250000, "dbg ndebug"), F("h_bits", "reads_small", 400000, "dbg ndebug"),
            F("h_rs", "huge_rs", 4, "ndebug", thorough=6, **HUGE)],
    "C03": [F("h_bits", "predsucc", 300000, CORE), F("h_bits", "predsucc_small", 300000, CORE),
            F("h_rs", "huge_rs", 4, "ndebug", thorough=6, **HUGE)],
    "C04": [F("h_bits", "enum_history", 3000000, CORE),
            F("h_huge", "huge_enum", 12, "ndebug", thorough=6, **HUGE4)],
    "C05": [F("h_bits", "unary_history", 2500000, CORE),
            F("h_huge", "huge_enum", 12, "ndebug", thorough=6, **HUGE4)],
    "C06": [F("h_rs", "rs", 80000, CORE), F("h_rs", "rs_mid", 12000, CORE), F("h_rs", "rs_blocks", 40000, CORE),
            F("h_rs", "huge_rs", 6, "ndebug", thorough=6, **HUGE)],
    "C07": [F("h_rs", "darray", 80000, CORE), F("h_rs", "darray_spans", 40000, CORE),
            F("h_rs", "huge_darray", 6, "ndebug", thorough=6, **HUGE), F("h_huge", "many_darray", 1, "ndebug", thorough=8, **MANY)],
    "C08": [F("h_rs", "darray64_history", 200000, CORE),
            F("h_huge", "huge_da64", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_da64", 1, "ndebug", thorough=8, **MANY)],
    "C09": [F("h_ef", "ef_mono", 180000, CORE), F("h_ef", "ef_large", 12000, CORE), F("h_ef", "ef_bits", 90000, CORE),
            F("h_huge", "huge_ef", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_ef", 1, "ndebug", thorough=8, **MANY)],
    "C10": [F("h_ef", "ef_enum", 500000, CORE), F("h_ef", "ef_enum_large", 30000, CORE),
            F("h_huge", "huge_ef", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_ef", 1, "ndebug", thorough=8, **MANY)],
    "C11": [F("h_ef", "ef_list", 300000, CORE),
            F("h_huge", "huge_ef_list", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_ef_list", 1, "ndebug", thorough=8, **MANY)],
    "C12": [F("h_ef", "ef_compressed_list", 300000, CORE),
            F("h_huge", "huge_ef_compressed", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_ef_compressed", 1, "ndebug", thorough=8, **MANY)],
    "C13": [F("h_gamma", "gamma_vector", 200000, CORE),
            F("h_huge", "huge_gamma", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_gamma", 1, "ndebug", thorough=8, **MANY)],
    "C14": [F("h_gamma", "gamma_bit_vector", 200000, CORE),
            F("h_huge", "huge_gamma_bit", 4, "ndebug", thorough=6, **HUGE4), F("h_huge", "many_gamma_bit", 1, "ndebug", thorough=8, **MANY)],
    "C15": [F("h_bp", "bp_nav", 90000, CORE), F("h_bp", "bp_nav_mid", 10000, CORE), F("h_bp", "bp_far_pair", 6000, CORE),
            F("h_bp", "huge_bp", 4, "ndebug", thorough=6, **HUGE)],
    "C16": [F("h_bp", "bp_rmq", 90000, CORE), F("h_bp", "bp_rmq_super", 10000, CORE),
            F("h_bp", "huge_bp", 4, "ndebug", thorough=6, **HUGE)],
    "C17": [F("h_ct", "ct_small", 200000, CORE), F("h_ct", "ct_mid", 120000, CORE), F("h_ct", "ct_large", 12000, CORE),
            F("h_ct", "huge_ct", 4, "ndebug", thorough=6, **HUGE)],
    "C18": [F("h_ct", "topk_small", 500000, CORE), F("h_ct", "topk_mid", 120000, CORE),
            F("h_ct", "huge_topk", 0, "ndebug", cases=2, mem=12000, workers=2, case_cpu=600)],
    "C19": [F("h_map", "roundtrip", 120000, "dbg ndebug"), F("h_map", "records", 60000, "dbg ndebug"), F("h_map", "multi", 30000, "dbg ndebug"),
            F("h_map", "huge_sizes", 4, "ndebug", thorough=4, **HUGE)],
    "C20": [F("h_map", "sizes", 120000, "dbg ndebug"), F("h_map", "records", 60000, "dbg ndebug"), F("h_map", "multi", 15000, "dbg ndebug"),
            F("h_map", "huge_sizes", 4, "ndebug", thorough=4, **HUGE)],
    "C21": [F("h_map", "determinism", 80000, "dbg ndebug")],
    "C22": [F("h_map", "value_history", 60000, "dbg ndebug asan")],
    "C23": [F("h_map", "mv_history", 400000, "dbg ndebug asan"),
            F("h_huge", "huge_mv", 2, "ndebug", thorough=6, **HUGE)],
    "C24": [F("h_bw", "words", 120000, CORE), F("h_bw", "fields", 80000, CORE),
            F("h_bw", "bulk", 16000, CORE)],
    "C25": [F("h_cfg", "cfg_structures", 120000, "cfg"), F("h_cfg", "cfg_words", 20000, "cfg")],
    "C26": [F("h_util", "vbyte", 4000000, "dbg ndebug port")],
    "C27": [F("h_util", "nibble", 300000, "dbg ndebug"),
            F("h_huge", "huge_nibble", 2, "ndebug", thorough=6, **HUGE)],
    "C28": [F("h_util", "file_lines", 60000, "dbg ndebug"), F("h_util", "buffer_lines", 80000, "dbg ndebug"),
            F("h_huge", "huge_lines", 6, "ndebug", thorough=6, mem=20000, workers=2, case_cpu=120)],
    "C29": [F("h_util", "ints", 5000000, "dbg ndebug clang")],
    "C30": [F("h_space", "space_bits", 30000, "dbg"), F("h_space", "space_bp", 30000, "dbg"),
            F("h_space", "space_ef", 30000, "dbg"), F("h_space", "space_gamma", 30000, "dbg")],
    "C31": [F("h_guard", "fenced", 120000, "dbg ndebug")] + [
        F(h, f, n, "asan", fuzz=True) for h, f, n in (
            ("h_bits", "builder_history", 40000), ("h_bits", "reads", 4000), ("h_bits", "predsucc", 3000),
            ("h_bits", "enum_history", 20000), ("h_bits", "unary_history", 20000),
            ("h_rs", "rs", 3000), ("h_rs", "rs_blocks", 2000), ("h_rs", "darray", 2000), ("h_rs", "darray_spans", 600),
            ("h_rs", "darray64_history", 4000),
            ("h_ef", "ef_mono", 6000), ("h_ef", "ef_bits", 3000), ("h_ef", "ef_enum", 6000), ("h_ef", "ef_list", 6000),
            ("h_ef", "ef_compressed_list", 6000),
            ("h_gamma", "gamma_vector", 6000), ("h_gamma", "gamma_bit_vector", 6000),
            ("h_bp", "bp_nav", 4000), ("h_bp", "bp_rmq", 4000),
            ("h_ct", "ct_small", 20000), ("h_ct", "ct_mid", 3000), ("h_ct", "topk_small", 20000), ("h_ct", "topk_mid", 1000),
            ("h_util", "vbyte", 20000), ("h_util", "nibble", 10000), ("h_util", "file_lines", 10000),
            ("h_util", "buffer_lines", 10000),
            ("h_map", "roundtrip", 6000), ("h_map", "records", 6000), ("h_map", "value_history", 3000), ("h_map", "mv_history", 6000),
        )],
    "C32": [F("h_threads", "shared_queries", 2000, "tsan", fork=True), F("h_threads", "private_objects", 1000, "tsan", fork=True),
            F("h_threads", "private_tools", 800, "tsan", fork=True),
            F("h_threads", "shared_queries", 10000, "dbg"), F("h_threads", "private_objects", 6000, "dbg"), F("h_threads", "private_tools", 4000, "dbg")],
    "C33": [F("h_compat", "compat", 120000, "pin")],
    "C34": [F("h_pages", "pages_bits", 3000, "ndebug dbg"), F("h_pages", "pages_trees", 2000, "ndebug dbg"),
            F("h_pages", "pages_lists", 2000, "ndebug dbg"),
            F("h_pages", "pages_huge", 12, "ndebug", thorough=6, **HUGE)],
    "C35": [F("h_io", "freeze_fault", 60000, "dbg ndebug"), F("h_io", "auto_file", 60000, "dbg ndebug")],
    "C36": [F("h_fault", "alloc_fault", 120000, "dbg ndebug"), F("h_fault", "mv_alloc_fault", 300000, "dbg ndebug"),
            F("h_fault", "throwing_input", 300000, "dbg ndebug"), F("h_fault", "throwing_stream", 40000, "dbg ndebug"),
            F("h_fault", "throwing_member", 60000, "dbg ndebug")],
    "C37": [F("h_headers", "headers", 160, "dbg port", thorough=12)],
}
