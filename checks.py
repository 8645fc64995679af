"""What each check runs: harness binary, entries, and the situations every run must reach."""
# entry: name -> dict(tier, jobs, secs, covers)
# must: situations the property says can happen (unreachable over all inputs = violation)
def E(name, covers=(), tier="quick", secs=360, args=(), must=()):
    return dict(name=name, covers=list(covers), tier=tier, secs=secs, args=list(args), must=list(must))
_sub = lambda w, n, k: [f"{w}, round {r}: {m}" for r in (1, 2) for m in range(1 << n) if bin(m).count("1") == k]

CHECKS = {
    "C01": dict(bin="c01", bounds="blocks of 256 arbitrary bits; bit sets and stored bit vectors of 1, 255, 256, 257, 512, 700 bits (1-3 blocks) with arbitrary contents; every position, every value; one operation from an arbitrary state (hence any sequence); refused positions up to 2^34 past the end",
        entries=[E("h_block", ["block"]), E("h_block_views", ["views"]), E("h_words", ["words"]), E("h_bitset", ["bitset"]), E("h_refuse", ["refuse"]), E("h_bitvec", ["bitvec"])]),
    "C02": dict(bin="c02", bounds="all-ones/all-zeros containers of every length 1..768 (fresh, grown and reused storage with arbitrary old content), population count for 1..512; boolean sources of 12 lengths in 0..300 and integer sources (u8/u16/u32/u64) of 8 lengths each, all contents; bit slices of every width for 1..768 values; resizing 2 arbitrary blocks to 1..3; block count for every length below 2^40",
        entries=[E("h_fill", ["fill"]), E("h_count", ["count"]), E("h_bools", ["bools"]), E("h_ints", ["ints"]), E("h_slices", ["slices"])]),
    "C03": dict(bin="c03", bounds="slices of 1-3 blocks of 256 examples with arbitrary codes at widths 1, 2, 4, 8 (both slice implementations); every position and code; quantisation of every 32-bit float under 2 bounds per layout, monotonicity over all pairs of 16-bit floats; refused positions and codes up to 2^32 past the end; thorough: 4 bounds",
        entries=[E("h_stored", ["stored"]), E("h_layout", ["layout"]), E("h_bitslice", ["bitslice"]), E("h_refused", ["refused"]), E("h_copy", ["copy"]), E("h_quant", ["quant"]), E("h_monotone", ["quant"]), E("h_roundtrip", ["roundtrip"]), E("h_quant_all", ["quant"], tier="thorough")]),
    "C04": dict(bin="c04", bounds="masks of 12 block counts in 1..35 and 10 more up to 128, all contents; slices of widths 1, 2, 4, 8 with 32 sizes of 1..33 mask blocks up to 65, all contents, both vectorised implementations; the scalar kernel for every word position and mask; scaled sums for every subset of 10 examples under 3 bounds; positions up to 2^32 past the end and mismatched lengths refused",
        entries=[E("h_count", ["count"]), E("h_count_big", ["count"]), E("h_sum", ["sum"]), E("h_sum_big", ["sum"]), E("h_scalar", ["scalar"]), E("h_scaled", ["scaled"]), E("h_refused", ["refused"]), E("h_linproj", ["linproj"])]),
    "C05": dict(bin="c05", bounds="1-2 mask blocks with completely arbitrary indices (repeats allowed) into 8-16 words, all contents; 6 increasing index patterns with 32 sizes of 1..50 compressed blocks and 0/1/3/7 padding words, all contents, widths 1, 2, 4, 8, against the uncompressed kernels on the expanded data and against the naive sum; doubly compressed lists by pattern (1-3 blocks) and two arbitrary increasing lists with 3 free entries; every out-of-range index refused",
        entries=[E("h_any", ["any"]), E("h_any10", ["any10"]), E("h_expanded", ["expanded"]), E("h_expanded_big", ["expanded"]), E("h_expanded10", ["expanded10"]), E("h_both", ["both"]), E("h_both_any", ["both_any"]), E("h_refused", ["refused"])]),
    "C06": dict(bin="c06", bounds="ten iteration functions; from every content of 1 block (3 visits, callbacks and iterators) or 2 blocks (2 visits), compressed sets of 1 block under 4 index patterns (2 visits), the visits made are checked against every word of the set (one step from an arbitrary content is every later step); one bit anywhere in 1, 3, 5, 17 blocks; up to 6 selected bits against the population count",
        entries=[E("h_plain", ["each", "each_and", "iter", "iter_and", "iter_andnot"]), E("h_compr", ["each", "each_and", "iter", "iter_and", "iter_andnot"]), E("h_sparse", ["sparse"]), E("h_counted", ["counted"]), E("h_refused", ["refused"])]),
    "C07": dict(bin="c07", bounds="u32 stores of three alignments: every history of 5 operations (allocate 1/3/6, free, write anywhere, write two, reset) from a new store, of 4 operations (2/5/8) from 4 fragmented states, of 6 operations (2/9) after one allocation, all written and fill values arbitrary, every live slice compared after every operation; two-slice borrows for every pair of non-empty ranges; 18 block-store histories with arbitrary contents",
        entries=[E("h_history", ["alloc", "free", "write", "reset", "two"]), E("h_reuse", ["alloc", "free", "write", "reset", "two"]), E("h_long", ["alloc", "free", "write", "reset", "two"]), E("h_two", ["given", "refused"]), E("h_blocks", ["blocks"])]),
    "C08": dict(bin="c08", bounds="7 bin layouts (1-4 features of 0-16 bins) with 3-5 live histograms, arbitrary contents, one write to any cell, free and reuse; subtraction for every assignment of the three roles; growth of the backing store for 3 layouts of up to 8193 bins; features and bins up to 2^32 past the end refused",
        entries=[E("h_cells", ["cells"]), E("h_subtract", ["subtract"]), E("h_growth", ["growth"]), E("h_history", ["history", "reset", "subtracted", "freed"]), E("h_refused", ["refused"])]),
    "C09": dict(bin="c09", bounds="6 limits (unit, symmetric, wide, narrow, very large) x up to 6 bin counts (1-64); every 32-bit float for range and clamping, a 4096-point grid over and around the limits and the 4096-point coarse float grid for the interval, all pairs of 16-bit floats for monotonicity; representatives of every bin; one insertion into arbitrary counts; rank lookup for arbitrary 16-bit counts in 1-5 bins, three ranks in one pass for 2-4 bins of 8-bit counts; every pair of floats as limits",
        entries=[E("h_range", ["range"]), E("h_order", ["grid", "coarse"]), E("h_monotone", ["monotone"]), E("h_repr", ["repr"]), E("h_insert", ["insert"]), E("h_rank", ["rank"]), E("h_ranks", ["ranks"]), E("h_refused", ["refused"])]),
    "C10": dict(bin="c10", bounds="numerical: 5 examples, 3 with arbitrary values of 16/8/4-point grids, under 4 limits, 4 gradient patterns and 1, 3, 16 bins; every edge of the 512 quantile bins (and the float below it) under 4 limits; low cardinality: 2-40 examples, up to 6 with arbitrary categories of 2, 3, 11; high cardinality: 5 examples, 4 with arbitrary categories, 1-16 bins, 4 gradient patterns (empty gradient bounds included); second updates of three features under arbitrary gradients (4 values); every bag and feature sample of 5 examples and 3 features at 3 example and 2 feature fractions",
        entries=[E("h_num", ["num"]), E("h_num_edge", ["num"]), E("h_locard", ["locard"]), E("h_hicard", ["hicard"]), E("h_again", ["again"]), E("h_history", ["history"]), E("h_bag", ["bag"]), E("h_bags", ["bags"])]),
    "C11": dict(bin="c11", bounds="every sequence of random draws (the generator is replaced by arbitrary draws of its contract): bags of 1-4 out of 3-7 examples in 9 combinations, 1-3 of 2-7 features with up to 2 useless ones in 8 combinations, three updates at sample frequencies 0-3 with both kinds of sampling; every fraction k/1024 and k/1000 for 5, 8, 15 examples and 4 useful features; every subset of 2 of 5 and 3 of 4 examples and 2 of 4 features is drawn by some sequence, in two rounds",
        entries=[E("h_bag", ["bag"]), E("h_features", ["features"]), E("h_repeat", ["repeat"]), E("h_fraction", ["fraction"]),
            E("h_every", must=_sub("bag of 2 in 5", 5, 2) + _sub("bag of 3 in 4", 4, 3) + _sub("2 features of 4", 4, 2))]),
    "C12": dict(bin="c12", bounds="trees of depth 1-3 in 8 shapes with every assignment of 4 features (low/high-cardinality categories, two numbers) to up to 3 splits, full trees of depth 3 for 6 feature orders; arbitrary 32-bit split values and feature values, categories 0-9 of which 0-5 were trained, arbitrary super-categories; arbitrary leaf values, bias; ensembles of 0-3 trees, alone and in a batch; 27 categories up to 2^32 of features of 257-70000 categories",
        entries=[E("h_tree", ["tree"]), E("h_deep", ["deep"]), E("h_value", ["value"]), E("h_ensemble", ["ensemble"]), E("h_wide", ["wide"]), E("h_refused", ["refused"])]),
    "C13": dict(bin="c13", bounds="6 examples with features of all three kinds and gradients arbitrary on a 4-point grid at widths 1, 2, 4, 8, depth 2-3; 5 examples with arbitrary values (3-16 per cell) of one feature; every bag and feature sample of 4-6 examples and 3 features, two rounds in one context; 300-352 examples (compressed nodes, 3 thresholds, bagging) with gradients arbitrary per word of 32 examples; 1020 examples (nodes compressed twice) with gradients of 6 words arbitrary",
        entries=[E("h_grads", ["grads"]), E("h_values", ["values"]), E("h_bag", ["bag"]), E("h_compr", ["compr"]), E("h_twice", ["twice"])]),
    "C14": dict(bin="c14", bounds="5-6 examples with gradients arbitrary on a 4-point grid at widths 1, 2, 4, 8, depth 1-3, 3 tables of features; minimum leaf sizes 0-4, 3 regularisation weights, 3 gain thresholds; every bag and feature sample of 4-5 examples and 3 features; 300-340 examples (compressed nodes, bagging, minimum leaf size 40/60) with gradients of 5 words arbitrary; gains compared up to float rounding",
        entries=[E("h_best", ["best"]), E("h_limits", ["limits"]), E("h_compr", ["compr"]), E("h_bag", ["bag"])]),
    "C15": dict(bin="c15", bounds="five objectives, 4 examples with arbitrary targets of a 4-point grid under 2 affine forms (0/1 for classification), 2 learning rates, 4 ways to divide the examples in leaves, two rounds; residual quantiles of 1-3 examples on grids of 4-64 points; every pair of finite targets below 1e38 for the squared and absolute gradients; names with one arbitrary 7-bit character anywhere; quantiles up to one of 1024 bins of the residual range",
        entries=[E("h_rounds", ["l2", "l1", "huber", "binary", "hinge"]), E("h_fine", ["fine"]), E("h_again", ["again"]), E("h_any", ["any"]), E("h_names", ["names"])]),
    "C16": dict(bin="c16", bounds="every 32-bit target and prediction for one example (squared, root, error rates), every pair of equal vectors of 2 floats; logistic loss of both classes on 3 grids of 4096 predictions up to 2e33; means of 1-6 examples over grids of 4-4096 predictions each; names with one arbitrary 7-bit character anywhere",
        entries=[E("h_one", ["one"]), E("h_perfect", ["perfect"]), E("h_loss", ["loss"]), E("h_mean", ["mean"]), E("h_names", ["names"])]),
    "C17": dict(bin="c17", bounds="23 options: every name with one or two adjacent characters arbitrary, one removed or one inserted; integers of up to 4 arbitrary 7-bit characters and at the ends of the 8/32/64-bit ranges for all 9 integer options; decimal numbers of up to 3 arbitrary characters of a 16-letter alphabet after 5 prefixes for all 8 float options; booleans of up to 5 arbitrary characters; lists of up to 4 arbitrary characters of 8-letter alphabets; lines with arbitrary characters and spaces around name and value; three-line configurations",
        entries=[E("h_name", ["known", "unknown"]), E("h_int", ["accepted", "refused"]), E("h_bool", ["true", "no"]), E("h_float", ["accepted", "refused"]), E("h_line", ["line"]), E("h_lines", ["lines", "bad"]), E("h_list", ["names", "numbers"])]),
    "C18": dict(bin="c18", bounds="4x3 tables with 4 arbitrary digit cells, 6 category declarations, 4 bin counts, with and without header, 2 delimiters; CSV text with up to 4 arbitrary characters of an 8-letter alphabet (digits, sign, point, comma, newline, letter, space) in 10 surroundings and 3 category declarations, accepted or refused as an independent reading of it says; raw columns of 2 arbitrary finite floats, numerical and categorical (any float), over 4 earlier states of the column; 3 columns of 4 values set in 3 orders",
        entries=[E("h_table", ["table", "header"]), E("h_text", ["accepted", "refused"]), E("h_column", ["column"]), E("h_categories", ["accepted", "refused"]), E("h_columns", ["columns"])]),
    "C19": dict(bin="c19", bounds="after bb_alloc of one feature: every sequence of 4 calls out of 12 (resizing, good and bad columns, options, training, prediction) with arbitrary cells, every sequence of 3 calls after a trained session; 20 options at 2-5 ordinary and extreme values with 3 objectives, numerical or categorical columns of arbitrary 2-bit cells, trained and predicted; arbitrary 32-bit sizes and feature numbers, null and live handles; two handles used in turn; results compared with the library called directly",
        entries=[E("h_calls", ["predicted", "refused"]), E("h_session", ["session"]), E("h_options", ["trained", "refused"]), E("h_arguments", ["inside", "outside"]), E("h_two", ["two"])]),
    "C20": dict(bin="c20", bounds="every order of the parallel jobs of a tree of depth 1 (2 features, up to 4 jobs, gradients of 5 examples arbitrary) and depth 2 (4 examples, one gradient arbitrary), at widths 1, 2, 4, 8; every pair of computation and arrival order for depth 1; compressed against uncompressed storage for 300-512 examples, 4 thresholds, gradients of 6 words, or of 6 examples in categories of 1-3 examples, arbitrary; reused against fresh learner contexts",
        entries=[E("h_order", ["order"]), E("h_splits", ["splits"]), E("h_arrival", ["arrival"]), E("h_storage", ["storage"]), E("h_rare", ["rare"]), E("h_context", ["context"])]),
    "C21": dict(bin="c21", bounds="five objectives; 4-6 examples with features of all three kinds, 0-3 rounds of depth 1-3, 6 settings, 4-5 arbitrary targets (4-point grid; 0/1 for classification; 3 of them for L1 and Huber); every outcome of the random draws of the first round in 5 combinations of bag, feature and sample frequency, arbitrary targets in 3 more; 290-320 examples (compressed nodes, bags, minimum leaf size) with 3-4 words of arbitrary targets, two rounds; 4 tables of constant features only (categorical ones have no bins), sampled or not",
        entries=[E("h_rounds", ["l2", "l1", "huber", "binary", "hinge"]), E("h_bag", ["l2", "l1", "huber", "binary", "hinge"]), E("h_large", ["l2", "l1", "huber", "binary", "hinge"]), E("h_flat", ["l2", "l1", "huber", "binary", "hinge"])]),
    "C22": dict(bin="c22", bounds="five objectives, tables of 4-5 examples with features of all three kinds, depth 2, 1-2 rounds; every outcome of the draws of a seed in 4 combinations of bag, feature and sample frequency, with and without metrics; arbitrary targets (4-point grid, 0/1) for objectives used before on 3-7 other examples; two trainings on one handle of the C interface and one on another; 4 pairs of seeds",
        entries=[E("h_draws", ["l2", "l1", "huber", "binary", "hinge", "draws"]), E("h_targets", ["l2", "l1", "huber", "binary", "hinge"]), E("h_seed", ["seed"]), E("h_handles", ["handles"])]),
}
NOT_APPLICABLE = {}
