"""Which symbolic executions decide which property, within which bounds."""
import json, os

def job(entry, quick=True, covers=("end",), timeout=120, workers=2, text="", **kw):
    params = {k: v for k, v in kw.items() if k.isupper()}
    extra = {k: v for k, v in kw.items() if not k.isupper()}
    return dict(entry=entry, params=params, covers=list(covers), timeout=timeout, workers=workers, text=text, **extra)

PROPS = {}
def prop(pid, quick, thorough=None, assumptions=()):
    PROPS[pid] = dict(quick=quick, thorough=(thorough or []), assumptions=list(assumptions))

SC = ("end", "several-levels", "parallel-level", "coarsened-partition")
S2 = ("end", "several-levels", "coarsened-partition")
S3 = ("end", "parallel-level", "coarsened-partition")
NZ = dict(PARTNO=1)
PRE_DAG = "the input is the CSC pattern of a lower triangular matrix with a full diagonal, rows sorted, diagonal first"
PRE_COST = "node costs are positive integers (number of nonzeros / operations), so that sums are exact in double precision"

CI = ["--conc-index"]   # case-split array indices: reaches larger structures; costs and values stay symbolic
# --- LBC -------------------------------------------------------------------------------------------------------
prop("P01", [job("h_lbc_csc", N=3, CMAX=3, IC=3, CP=3, PARTNO=1, covers=SC), job("h_lbc_csc", N=4, CMAX=3, IC=3, CP=3, PARTNO=1, covers=SC, workers=4),
             job("h_lbc_csc", N=5, CMAX=2, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI), job("h_lbc_csc", N=6, DEG=2, CMAX=1, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI)],
     [job("h_lbc_csc", N=5, CMAX=2, IC=2, CP=2, PARTNO=1, covers=SC, workers=8, timeout=300), job("h_lbc_csc", N=6, CMAX=1, ICMIN=2, IC=3, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI, timeout=250),
      job("h_lbc_csc", N=7, DEG=1, CMAX=2, ICMIN=2, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI, timeout=200)], [PRE_DAG, PRE_COST])
prop("P02", [job("h_lbc_cc", N=6, workers=8, flags=CI)] + [job("h_lbc_csc03", N=4, CMAX=3, IC=3, CP=3, PARTNO=1, covers=S2, workers=4), job("h_lbc_csc03", N=5, CMAX=1, IC=3, CP=2, PARTNO=1, covers=SC, workers=8, flags=CI),
             job("h_lbc_csc03", N=6, DEG=2, CMAX=1, IC=3, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI)],
     [job("h_lbc_csc03", N=5, CMAX=2, IC=3, CP=3, PARTNO=1, covers=SC, workers=8, timeout=300), job("h_lbc_csc03", N=6, CMAX=1, ICMIN=2, IC=4, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI, timeout=250)], [PRE_DAG, PRE_COST])
prop("P03", [job("h_lbc_cc", N=6, DEG=2, workers=8, flags=CI)] + [job("h_lbc_csc03_parallel", N=4, CMAX=2, IC=3, CP=3, PARTNO=1, covers=SC, workers=4), job("h_lbc_csc03_parallel", N=5, CMAX=1, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8),
             job("h_lbc_csc03_parallel", N=6, DEG=1, CMAX=1, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI), job("h_lbc_csc03_parallel", N=4, CMAX=2, IC=2, CP=2, PARTNO=1, covers=SC, workers=4, omp=2, flags=["--omp-iter"])],
     [job("h_lbc_csc03_parallel", N=5, CMAX=2, IC=3, CP=3, PARTNO=1, covers=SC, workers=8, timeout=300), job("h_lbc_csc03_parallel", N=6, CMAX=1, ICMIN=2, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI, timeout=250)], [PRE_DAG, PRE_COST])
prop("P04", [job("h_lbc_tree", N=5, CMAX=2, IC=3, CP=2, covers=S3, workers=4), job("h_lbc_tree", N=7, CMAX=1, ICMIN=2, IC=2, CP=1, DR=1, covers=SC, workers=4, flags=CI),
             job("h_lbc_csc_tree", N=4, CMAX=2, IC=3, CP=3, PARTNO=1, covers=S3, workers=4), job("h_lbc_csc_tree", N=7, DEG=1, CMAX=1, ICMIN=2, IC=2, CP=1, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI),
             job("h_lbc_csc_tree", N=5, CMAX=2, IC=3, CP=2, DR=1, PARTNO=1, covers=S3, workers=8, flags=CI)],
     [job("h_lbc_csc_tree", N=7, DEG=2, CMAX=1, ICMIN=2, IC=2, CP=1, DR=1, PARTNO=1, covers=SC, workers=8, flags=CI, timeout=250), job("h_lbc_tree", N=8, CMAX=1, ICMIN=2, IC=3, CP=2, DR=2, covers=SC, workers=8, flags=CI, timeout=250),
      job("h_lbc_csc_tree", N=5, CMAX=1, IC=2, CP=2, PARTNO=1, covers=S3, workers=8, timeout=250)], [PRE_DAG, PRE_COST, "trees: parent(v) > v or none"])
prop("P05", [job("h_lbc_bcsc", NB=3, W=2, OFF=2, CMAX=2, covers=S3, workers=2), job("h_lbc_bcsc", NB=4, W=2, OFF=2, CMAX=2, IC=2, CP=2, DR=1, covers=S3, workers=8, flags=CI),
             job("h_lbc_bcsc", NB=6, W=1, OFF=2, CMAX=1, IC=2, CP=2, DR=1, covers=SC, workers=8, flags=CI), job("h_lbc_bcsc", NB=7, W=1, OFF=1, CMAX=1, ICMIN=2, IC=2, CP=1, DR=1, covers=SC, workers=4, flags=CI)],
     [job("h_lbc_bcsc", NB=5, W=2, OFF=2, CMAX=1, IC=2, CP=1, ICMIN=2, DR=1, covers=S3, workers=8, flags=CI, timeout=250), job("h_lbc_bcsc", NB=4, W=2, OFF=2, CMAX=1, covers=S3, workers=8, timeout=250)],
     ["the input is a supernodal lower triangular pattern: blocks of consecutive columns, each with its own rows first and sorted rows below", PRE_COST])
# --- HDagg -----------------------------------------------------------------------------------------------------
prop("P06", [job("h_compute_cc", N=6, DEG=2, CMAX=0, covers=("end", "multi-level"), workers=8, flags=CI)] + [job("h_hdagg", N=4, CORES=2, CMAX=2, covers=SC, workers=4), job("h_hdagg", N=4, CORES=4, CMAX=1, DIRTY=1, PLS=1, covers=SC, workers=4), job("h_hdagg", N=5, CORES=3, CMAX=1, covers=SC, workers=8, flags=CI),
             job("h_hdagg", N=6, DEG=2, CORES=2, CMAX=1, covers=SC, workers=8, flags=CI)],
     [job("h_hdagg", N=6, CORES=2, CMAX=1, covers=SC, workers=8, flags=CI, timeout=300), job("h_hdagg", N=5, CORES=3, CMAX=2, covers=SC, workers=8, flags=CI, timeout=300)], [PRE_DAG, PRE_COST])
prop("P07", [job("h_glc", N=4, CORES=2, CMAX=2, covers=SC, workers=4), job("h_glc", N=4, CORES=4, CMAX=1, DIRTY=1, PLS=1, covers=SC, workers=4), job("h_glc", N=5, CORES=3, CMAX=1, covers=SC, workers=8, flags=CI),
             job("h_glc", N=6, DEG=2, CORES=2, CMAX=1, covers=SC, workers=8, flags=CI)],
     [job("h_glc", N=6, CORES=2, CMAX=1, covers=SC, workers=8, flags=CI, timeout=300), job("h_glc", N=5, CORES=3, CMAX=2, covers=SC, workers=8, flags=CI, timeout=300)], [PRE_DAG, PRE_COST])
prop("P08", [job("h_hdagg_cc", N=6, workers=8, flags=CI)] + [job("h_compute_schedule", N=4, covers=SC, workers=4), job("h_compute_schedule", N=5, DEG=2, CORES=2, covers=SC, workers=8, flags=CI), job("h_coarsen", N=4, covers=S2, workers=2), job("h_coarsen", N=2, DENSE=22, covers=("end", "dense"), workers=1)],
     [job("h_compute_schedule", N=5, CORES=3, covers=SC, workers=8, flags=CI, timeout=400), job("h_coarsen", N=5, covers=S2, workers=8, timeout=300)], [PRE_DAG])
# --- level sets, components, grouping -----------------------------------------------------------------------------
LV = ("end", "chain", "wide-and-deep")
prop("P09", [job(e, N=3, covers=LV + (() if e == "h_level_queue" else ("cycle",)), workers=1) for e in ("h_level_csc", "h_level_computing", "h_level_hdagg", "h_level_queue")]
     + [job(e, N=4, covers=LV + (() if e == "h_level_queue" else ("cycle",)), workers=4) for e in ("h_level_csc", "h_level_computing", "h_level_hdagg", "h_level_queue")],
     [job(e, N=5, DEG=2, covers=LV + (() if e == "h_level_queue" else ("cycle",)), workers=4, timeout=350) for e in ("h_level_csc", "h_level_computing", "h_level_hdagg", "h_level_queue")], ["every column lists its diagonal first and its other rows in increasing order; any digraph, cycles included"])
prop("P10", [job("h_level_multi", N=4), job("h_level_multi", N=3, KERN=3), job("h_level_bn", N=4), job("h_level_bn", N=4, LOWER=0), job("h_level_bn", N=4, KERN=2), job("h_level_tree", N=5), job("h_level_tree_eff", N=5),
             job("h_level_bcsc", NB=3), job("h_level_bcsc", NB=4), job("h_compute_depth", N=4)],
     [job("h_level_multi", N=5, workers=4, timeout=300), job("h_level_bn", N=5, workers=4, timeout=300), job("h_level_tree", N=7, workers=4, timeout=300, flags=CI), job("h_level_tree_eff", N=7, workers=4, timeout=300, flags=CI), job("h_level_bcsc", NB=5, workers=4, timeout=300)])
prop("P11", [job("h_hdagg_cc", N=6, flags=CI, workers=8), job("h_compute_cc", N=6, CMAX=0, covers=("end", "multi-level"), flags=CI, workers=8)] + [job("h_hdagg_cc", N=4), job("h_compute_cc", N=4, covers=("end", "multi-level")), job("h_hdagg_cc", N=5, flags=CI, workers=4), job("h_compute_cc", N=5, covers=("end", "multi-level"), flags=CI, workers=8)],
     [job("h_hdagg_cc", N=6, flags=CI, workers=8, timeout=300), job("h_compute_cc", N=6, DEG=2, covers=("end", "multi-level"), flags=CI, workers=8, timeout=300)], [PRE_DAG])
prop("P12", [job("h_grouping", N=4, KIND=k, covers=("end", "grouped")) for k in range(4)] + [job("h_grouping", N=4, KIND=k, LFACTOR=1) for k in (0, 3)] + [job("h_grouping", N=4, KIND=k, DIRTY=1, covers=("end", "grouped")) for k in range(4)]
     + [job("h_grouping", N=5, KIND=k, covers=("end", "grouped"), flags=CI, workers=2) for k in range(4)] + [job("h_group_dag", N=3), job("h_group_dag", N=4, flags=CI, workers=4)],
     [job("h_grouping", N=6, KIND=k, covers=("end", "grouped"), flags=CI, workers=4, timeout=200) for k in range(4)], [PRE_DAG])
prop("P13", [job("h_pipeline", N=4, KIND=k, PRUNE=pr, covers=("end", "grouped")) for k in range(4) for pr in (0, 1)] + [job("h_pipeline", N=5, KIND=k, PRUNE=1, covers=("end", "grouped"), flags=CI, workers=4) for k in range(4)],
     [job("h_pipeline", N=6, DEG=2, KIND=k, PRUNE=1, CORES=2, covers=("end", "grouped", "several-levels"), flags=CI, workers=8, timeout=200) for k in range(4)], [PRE_DAG])
prop("P14", [job("h_sparsify", N=4, covers=("end", "pruned")), job("h_sparsify", N=5, covers=("end", "pruned"), workers=4), job("h_sparsify", N=4, covers=("end", "pruned"), omp=2, flags=["--omp-iter"])],
     [job("h_sparsify", N=6, covers=("end", "pruned"), workers=8, flags=CI, timeout=400), job("h_sparsify", N=5, covers=("end", "pruned"), workers=8, timeout=200, omp=3, flags=["--omp-iter"])], [PRE_DAG])
prop("P15", [job("h_postorder", N=4, covers=("end",)), job("h_postorder", N=5, flags=CI, workers=4), job("h_postorder_group", N=4, covers=("end", "grouped")), job("h_postorder_group", N=5, covers=("end", "grouped"), flags=CI, workers=4)],
     [job("h_postorder", N=6, flags=CI, workers=8, timeout=300), job("h_postorder_group", N=6, covers=("end", "grouped"), flags=CI, workers=8, timeout=300)], [PRE_DAG])
prop("P16", [job("h_cost", N=3, KERNEL=k) for k in range(7)], [job("h_cost", N=4, KERNEL=k, flags=CI, workers=2, timeout=200) for k in range(7)], [PRE_DAG])
prop("P17", [job(e, N=7, TPL=t, WID=w, EXTRA=1, flags=CI, workers=4) for e in ("h_twod", "h_final_dag") for t, w in ((9, 6), (11, 3), (1, 1), (7, 1))] + [job("h_cn_to_super", N=6, TPL=1, EXTRA=1, flags=CI, workers=4), job("h_aggr_super", N=6, TPL=1, EXTRA=1, flags=CI, workers=4)] + [job("h_final_dag", N=4), job("h_twod", N=4), job("h_cn_to_super", N=4), job("h_aggr_super", N=4), job("h_hdagg_etree", N=4), job("h_hdagg_etree", N=5, flags=CI)],
     [job("h_final_dag", N=5, flags=CI, workers=4, timeout=300), job("h_twod", N=5, flags=CI, workers=4, timeout=300), job("h_cn_to_super", N=5, flags=CI, workers=4, timeout=300), job("h_aggr_super", N=5, flags=CI, workers=4, timeout=300), job("h_hdagg_etree", N=6, flags=CI, workers=4, timeout=300)])
# --- executors -----------------------------------------------------------------------------------------------------
PL = ("end", "parallel-level"); GR = ("end", "grouped")
SOLVE = [("h_sptrsv_lbc", 0, PL), ("h_sptrsv_lbc", 1, PL), ("h_sptrsv_lbc", 2, PL), ("h_sptrsv_levelset", 0, PL), ("h_sptrsv_levelset", 1, PL), ("h_sptrsv_levelset", 2, PL), ("h_sptrsv_group", 0, GR), ("h_sptrsv_group", 1, GR), ("h_sptrsv_group", 2, GR)]
prop("P18", [job(e, N=3, KIND=k, EMPTY=1, covers=c, uf=True) for e, k, c in SOLVE] + [job(e, N=4, KIND=k, covers=c, uf=True, workers=2) for e, k, c in SOLVE if e != "h_sptrsv_group"] + [job("h_fs_stat", N=4)] + [job("h_sptrsv_stat", N=3, KIND=k, known="stat") for k in range(3)],
     [job("h_sptrsv_group", N=4, KIND=k, covers=GR, uf=True, workers=4, timeout=250) for k in range(3)])
prop("P19", [job("h_lbc_csc03_parallel", N=4, CMAX=1, IC=2, CP=2, PARTNO=1, covers=SC, omp=2, flags=["--omp-iter"]), job("h_lbc_csc03_parallel", N=4, CMAX=1, IC=2, CP=2, PARTNO=1, covers=SC, omp=3, flags=["--omp-iter"])] + [job(e, N=3, KIND=k, covers=c, uf=True, omp=2, flags=["--omp-iter"]) for e, k, c in SOLVE if not (e == "h_sptrsv_lbc" and k < 2) and not (e == "h_sptrsv_levelset" and k == 0)]
     + [job("h_grouping", N=4, KIND=k, covers=("end", "grouped"), omp=2, flags=["--omp-iter"]) for k in (0, 3)] + [job("h_group_dag", N=3, omp=2, flags=["--omp-iter"])] + [job("h_cost", N=3, KERNEL=k, omp=2, flags=["--omp-iter"]) for k in range(7)]
     + [job("h_cn_to_super", N=4, omp=2, flags=["--omp-iter"])],
     [job(e, N=4, KIND=k, covers=c, uf=True, omp=3, flags=["--omp-iter"], workers=4, timeout=200) for e, k, c in SOLVE if e == "h_sptrsv_lbc" and k == 2 or e == "h_sptrsv_levelset" and k])

# --- sparse matrices -------------------------------------------------------------------------------------------------
SQ = dict(uf=True, flags=CI)
prop("P20", [job("h_csc_to_csr", M=2, N=3, KIND=k, covers=("end",) if k else ("end", "filled"), **SQ) for k in (0, 1)] + [job("h_csc_to_csr", M=3, N=2, KIND=k, **SQ) for k in (0, 1)] + [job("h_csr_to_csc", M=2, N=3, KIND=k, **SQ) for k in (0, 1)] + [job("h_csr_to_csc", M=3, N=2, KIND=k, **SQ) for k in (0, 1)]
     + [job("h_transpose", M=2, N=3, **SQ), job("h_transpose", M=3, N=2, **SQ), job("h_copy", M=2, N=3, **SQ), job("h_csc_to_csr", M=3, N=2, UNSORTED=1, **SQ), job("h_csc_to_csr", M=3, N=3, KIND=1, workers=4, **SQ)],
     [job("h_csc_to_csr", M=3, N=3, KIND=0, UNSORTED=1, COL=2, workers=4, timeout=200, **SQ), job("h_csr_to_csc", M=3, N=3, KIND=1, workers=4, timeout=200, **SQ), job("h_transpose", M=3, N=3, workers=4, timeout=200, **SQ), job("h_copy", M=3, N=3, workers=4, timeout=200, **SQ),
      job("h_csc_to_csr", M=4, N=3, KIND=1, workers=8, timeout=300, **SQ), job("h_transpose", M=3, N=4, workers=8, timeout=300, **SQ)], ["row indices of one column are distinct"])
prop("P21", [job("h_make_half", N=3, **SQ), job("h_make_half", N=2, UNSORTED=1, **SQ), job("h_make_full", N=3, **SQ), job("h_make_full", N=2, UNSORTED=1, **SQ), job("h_transpose_symmetric", N=3, **SQ), job("h_add", M=2, N=2, **SQ), job("h_make_symmetric", N=3, COL=2, **SQ), job("h_permute", M=3, N=2, **SQ),
             job("h_dense", N=3, M=2, **SQ), job("h_special", N=4, **SQ)],
     [job("h_make_half", N=4, COL=3, workers=8, timeout=200, **SQ), job("h_make_full", N=4, workers=8, timeout=200, **SQ), job("h_transpose_symmetric", N=4, COL=2, workers=8, timeout=300, **SQ), job("h_add", M=3, N=2, workers=8, timeout=300, **SQ), job("h_permute", M=3, N=3, COL=2, workers=8, timeout=200, **SQ)],
     ["row indices of one column are distinct"])

BAL = ("end", "packed", "packed-late"); BQ = dict(BALANCE=1, IC=2, ICMIN=2, DR=1, workers=8, flags=CI)
prop("P22", [job("h_lbc_csc", N=9, TPL=4, WID=3, EXTRA=1, CMAX=3, COSTV=6, CP=1, covers=BAL, **BQ), job("h_lbc_csc03", N=9, TPL=4, WID=3, EXTRA=1, CMAX=3, COSTV=6, CP=1, covers=BAL, **BQ), job("h_lbc_csc03_parallel", N=9, TPL=4, WID=3, EXTRA=1, CMAX=3, COSTV=6, CP=1, covers=BAL, **BQ),
             job("h_lbc_csc", N=7, TPL=5, WID=4, EXTRA=2, CMAX=3, COSTV=3, CP=2, covers=BAL, **BQ), job("h_lbc_csc03", N=7, TPL=5, WID=4, EXTRA=2, CMAX=3, COSTV=3, CP=2, covers=BAL, **BQ), job("h_lbc_csc03_parallel", N=7, TPL=5, WID=4, EXTRA=2, CMAX=3, COSTV=3, CP=2, covers=BAL, **BQ),
             job("h_lbc_bcsc", NB=6, W=1, OFF=2, CMAX=1, CP=2, covers=("end", "packed"), **BQ), job("h_lbc_tree", N=6, CMAX=2, CP=2, covers=("end", "packed"), **BQ), job("h_lbc_tree", N=7, CMAX=1, CP=1, covers=BAL, **BQ), job("h_bins", K=4, BINS=3, CMAX=4, workers=4)],
     [job("h_lbc_csc", N=11, TPL=4, WID=4, EXTRA=1, CMAX=4, COSTV=8, CP=2, timeout=200, covers=BAL, **BQ), job("h_lbc_bcsc", NB=8, W=1, OFF=1, CMAX=1, CP=1, timeout=250, covers=("end", "packed"), **BQ), job("h_lbc_tree", N=8, CMAX=1, CP=2, timeout=250, covers=BAL, **BQ), job("h_bins", K=5, BINS=3, CMAX=4, workers=8, timeout=250), job("h_bins", K=4, BINS=2, workers=8, timeout=250)], [PRE_DAG, PRE_COST])

# --- graphs, trees, blocked storage ------------------------------------------------------------------------------------
G = dict(flags=CI)
prop("P23", [job("h_merge_graph", N=2, KIND=0, G=3, **G), job("h_merge_graph", N=2, KIND=1, G=3, **G), job("h_merge_graph", N=2, KIND=2, G=2, **G), job("h_coarsen_k", N=4, **G), job("h_tree_utils", N=4, **G), job("h_post_order_split", N=5, covers=("end", "forest"), **G),
             job("h_perm_utils", N=4, **G), job("h_norms", N=3, **G), job("h_safe_size")],
     [job("h_merge_graph", N=3, KIND=0, G=2, workers=4, timeout=250, **G), job("h_merge_graph", N=3, KIND=2, G=2, COL=1, workers=8, timeout=250, **G), job("h_tree_utils", N=5, workers=4, timeout=300, **G), job("h_post_order_split", N=6, covers=("end", "forest"), workers=4, timeout=250, **G), job("h_perm_utils", N=6, **G)],
     ["trees: parent(v) > v or none", "the multiplier of a size product is at most 9"])
prop("P24", [job("h_supernodes", N=4, covers=("end", "wide"), **G), job("h_supernodes", N=5, covers=("end", "wide"), **G), job("h_supernodes", N=3, DIAG=0, covers=("end", "wide"), **G), job("h_blocked", N=3, **G), job("h_supernode_limit", N=4, covers=("end", "upper"), **G), job("h_merge_graphs", N=2, **G), job("h_merge_graphs", N=3, COLB=1, workers=4, **G),
             job("h_fused_levels", NB=3, COLB=1, W=1, covers=("end", "several-levels"), **G), job("h_fused_levels", NB=2, COLB=1, W=2, covers=("end", "several-levels"), **G)],
     [job("h_blocked", N=4, COL=2, workers=4, timeout=200, **G), job("h_supernode_limit", N=5, covers=("end", "upper"), workers=4, timeout=200, **G), job("h_fused_levels", NB=2, COLB=2, W=2, covers=("end", "several-levels"), workers=8, timeout=200, **G), job("h_fused_levels", NB=4, COLB=1, W=1, covers=("end", "several-levels"), workers=8, timeout=250, **G)],
     ["columns have sorted rows", "the triangular factors of fused kernels have dense diagonal blocks and full block rows"])

# --- elimination trees, symbolic factorization, METIS -------------------------------------------------------------------
prop("P25", [job("h_etree", KIND=0, N=4, **G), job("h_etree", KIND=0, N=5, COL=3, workers=4, **G), job("h_etree", KIND=1, N=4, M=3, **G), job("h_etree", KIND=0, N=4, COL=3, UNSORTED=1, **G), job("h_etree", KIND=2, N=2, **G), job("h_post_order", N=5, covers=("end", "siblings"), workers=2, **G), job("h_col_counts", N=4, **G), job("h_col_counts", N=5, COL=3, workers=4, **G),
             job("h_ereach", N=4, FULL=1, COL=2, **G), job("h_ereach", N=4, **G), job("h_ereach", N=4, UNSORTED=1, COL=3, **G), job("h_L_pattern", N=4, **G), job("h_symbolic", N=4, **G), job("h_symbolic", N=3, DIAG=0, **G), job("h_symbolic", N=3, PATTERN=1, **G)],
     [job("h_etree", KIND=0, N=5, workers=4, timeout=200, **G), job("h_etree", KIND=1, N=4, M=4, workers=8, timeout=200, **G), job("h_post_order", N=6, covers=("end", "siblings"), workers=8, timeout=200, **G), job("h_col_counts", N=5, workers=8, timeout=200, **G), job("h_ereach", N=5, COL=3, workers=8, timeout=200, **G), job("h_L_pattern", N=5, COL=3, workers=8, timeout=200, **G), job("h_symbolic", N=5, COL=3, workers=8, timeout=300, **G)],
     ["METIS_NodeND is replaced by a stand-in that returns any permutation", "factored matrices have at least one entry", "trees: parent(v) > v or none"])
prop("P26", [job("h_metis_symmetric", N=3, KIND=k, **G) for k in (0, 1)] + [job("h_metis_general", N=3, KIND=k, **G) for k in (0, 1)] + [job("h_metis_symmetric", N=4, KIND=1, **G), job("h_metis_general", N=4, KIND=1, workers=4, **G), job("h_metis_coarsened", N=4, covers=("end", "coarse"), workers=4, **G), job("h_metis_partitioning", N=4, workers=4, **G)],
     [job("h_metis_symmetric", N=4, KIND=0, workers=8, timeout=200, **G), job("h_metis_general", N=4, KIND=0, workers=8, timeout=200, **G), job("h_metis_coarsened", N=5, covers=("end", "coarse"), workers=8, timeout=300, **G)],
     ["METIS_NodeND and METIS_PartGraphKway are replaced by stand-ins that record the graph and return any permutation / partition", "matrices passed as full are structurally symmetric"])

# --- row grouping, flat partitions, comparisons -------------------------------------------------------------------------
GR = ("end", "grouped")
prop("P27", [job("h_row_groups", KIND=k, N=5, covers=GR, **G) for k in range(4)] + [job("h_row_groups", KIND=3, N=6, DEG=2, covers=GR, workers=2, **G), job("h_row_groups", KIND=3, N=12, TPL=1, EXTRA=2, covers=GR, **G), job("h_row_groups", KIND=3, N=12, TPL=3, EXTRA=2, covers=GR, **G), job("h_row_groups", KIND=3, N=12, TPL=4, WID=3, EXTRA=2, covers=GR, **G),
             job("h_row_groups", KIND=1, N=10, TPL=7, EXTRA=2, covers=GR, **G), job("h_naive_groups", N=8), job("h_group_dags", N=4, NG=2, **G), job("h_group_dags", N=4, NG=3, **G), job("h_group_dags", N=3, NG=2, omp=2, flags=["--omp-iter"])],
     [job("h_row_groups", KIND=k, N=6, covers=GR, workers=8, timeout=200, **G) for k in range(4)] + [job("h_row_groups", KIND=3, N=13, TPL=t, EXTRA=3, covers=GR, workers=8, timeout=200, **G) for t in (1, 3, 8)] + [job("h_group_dags", N=5, NG=3, workers=8, timeout=200, **G)],
     [PRE_DAG])
prop("P28", [job("h_partition_by_weight", N=4, covers=("end", "split"), workers=2), job("h_partition_by_bfs", N=4, covers=("end", "split"), workers=2), job("h_merge_inner", N=4), job("h_compare", N=3), job("h_compare_csc", covers=("end", "equal")), job("h_compare", N=2, NAN=1, known="nan"), job("h_compare_csc", ROWS=1, known="rows"), job("h_compare_csc", PATTERN=1, covers=("end", "equal"), known="pattern"), job("h_rhs", N=3), job("h_unique", N=5, covers=("end", "permutation")), job("h_median", N=4)],
     [job("h_partition_by_weight", N=5, covers=("end", "split"), workers=8, timeout=250), job("h_partition_by_bfs", N=5, PARTS=3, WMAX=2, covers=("end", "split"), workers=8, timeout=300), job("h_merge_inner", N=6, workers=4, timeout=200), job("h_median", N=5, workers=4, timeout=200), job("h_compare_csc", M=3, N=2, covers=("end", "equal"), workers=8, timeout=200)],
     ["weights are positive integers, so that sums are exact in double precision", "the tested vector of test_unique holds indices in range (asserted by the code)"])
prop("P29", [job("h_read_mtx", SHAPES=1), job("h_read_mtx", ARITH=1, E=3), job("h_read_mtx", ARITH=2, SYM=1, M=3, N=3, E=3), job("h_read_stream", E=2, SHAPES=1, workers=2), job("h_read_stream", ARITH=2, SYM=1, DIAG=1, M=3, N=3, E=2), job("h_read_stream", ARITH=1, DIAG=1, E=1), job("h_read_stream", ARITH=3, E=1), job("h_read_stream", SYM=2, E=1), job("h_bad_entries", K=5, covers=("end", "refused", "accepted")), job("h_bad_entries", K=5, STREAM=1, covers=("end", "accepted")), job("h_bad_entries", E=2, K=4), job("h_mm_bad_header", covers=("end", "intact", "long", "sizes")), job("h_read_array", covers=("end", "refused")), job("h_dense_csc"), job("h_one_based"), job("h_triplets", E=3), job("h_strings", covers=("end", "name", "trim"))],
     [job("h_read_mtx", E=2, M=2, N=3, workers=8, timeout=300), job("h_read_mtx", ARITH=2, M=3, N=3, E=4, workers=8, timeout=200), job("h_read_stream", E=2, workers=8, timeout=300), job("h_read_stream", ARITH=2, M=3, N=3, E=3, DIAG=1, workers=8, timeout=200), job("h_bad_entries", K=6, covers=("end", "refused", "accepted"), workers=8, timeout=200), job("h_read_array", SEP=1, VALS=2, M=2, covers=("end", "refused"), workers=4, timeout=200), job("h_triplets", E=4, workers=4, timeout=200), job("h_strings", K=6, covers=("end", "name", "trim"))],
     ["C and C++ file interfaces are replaced by stand-ins over one file held in memory (harness/io); replays use the real ones", "values in files are drawn from a table of decimal spellings", "calling exit() counts as refusing a file"])
prop("P30", [job("h_print_dense")] + [job("h_write_mtx", VALS=3), job("h_write_blocked"), job("h_print_matrix", VALS=2), job("h_mm_triplets", E=1, covers=("end", "plain")), job("h_mm_parts")],
     [job("h_write_mtx", M=3, N=2, VALS=2, workers=8, timeout=300), job("h_write_mtx", workers=4, timeout=200), job("h_write_blocked", N=4, workers=8, timeout=300), job("h_mm_triplets", E=2, covers=("end", "plain"), workers=4, timeout=200)],
     ["C and C++ file interfaces are replaced by stand-ins over one file held in memory (harness/io); replays use the real ones", "values are drawn from a table of numbers that three significant digits represent exactly (the writers print three)"])
IL = lambda k: ["--omp-iter", "--interleave", str(k)]
prop("P31", [job("h_lbc_cc", N=3, omp=2, flags=IL(2)), job("h_lbc_cc", N=4, omp=2, flags=IL(1)), job("h_lbc_cc", N=3, NT=3, omp=3, flags=IL(1)), job("h_hdagg_cc", N=4, omp=2, flags=IL(2), workers=4, covers=("end", "multi-level")), job("h_hdagg_cc", N=3, omp=3, flags=IL(2), covers=("end", "multi-level")), job("h_compute_cc", N=3, omp=2, flags=IL(2), workers=2, covers=("end", "multi-level")), job("h_compute_cc", N=4, omp=2, flags=IL(1), workers=4, covers=("end", "multi-level"))],
     [job("h_lbc_cc", N=4, omp=2, flags=IL(2), workers=4, timeout=200), job("h_lbc_cc", N=4, NT=3, omp=3, flags=IL(2), workers=8, timeout=300), job("h_hdagg_cc", N=4, omp=3, flags=IL(2), workers=8, timeout=300), job("h_hdagg_cc", N=5, DEG=2, omp=2, flags=IL(2), workers=8, timeout=400), job("h_compute_cc", N=3, omp=3, flags=IL(2), workers=8, timeout=300)],
     ["threads take over from each other only before accesses of the label array (all other shared accesses are shown free of races), at most the stated number of times per run beyond blocking", "sequentially consistent, word-sized loads and stores; concurrent stores of one constant do not conflict", "static loop scheduling"])
PLC = ("end", "parallel-level"); SV = dict(covers=PLC, uf=True, flags=CI)
prop("P32", [job("h_solve", N=5, KIND=k, workers=4, **SV) for k in range(16)] + [job("h_solve", N=5, KIND=k, SORTED=1, workers=4, **SV) for k in (1, 5, 6)] + [job("h_solve", N=4, KIND=k, REORDER=1, workers=4, **(SV if k != 1 else dict(SV, covers=("end",)))) for k in (0, 1, 3, 5, 8, 12, 14)],
     [job("h_solve", N=6, KIND=k, workers=8, timeout=200, **SV) for k in (0, 2, 3, 14)] + [job("h_solve", N=6, DEG=2, KIND=k, workers=8, timeout=200, **SV) for k in (0, 1, 2, 5, 8, 9, 11)] + [job("h_solve", N=7, DEG=1, KIND=3, CP=1, workers=8, timeout=200, **SV)],
     [PRE_DAG, "METIS_NodeND is replaced by a stand-in that returns any permutation", "floating-point operations are uninterpreted: the schedule must perform the operations of forward substitution in the order of the stored row entries"])
ALL = os.environ.get("VP_ALL")
def jobs_for(p, tier):
    d = PROPS[p]
    return d["quick"] + (d["thorough"] if tier == "thorough" else [])
BASE_ASSUMPTIONS = []
def assumptions_for(p): return BASE_ASSUMPTIONS + PROPS[p]["assumptions"]
def known_findings(root):
    out = []
    try:
        for l in open(os.path.join(root, "known_findings.txt")):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    except OSError: pass
    return out

# --- larger structures: every skeleton of harness/dag.hpp (chains, stars, layers, trees, bands, cliques, grids ...), widths included, with any EXTRA entries toggled --
def also(pid, quick=(), thorough=()): PROPS[pid]["quick"] = PROPS[pid]["quick"] + list(quick); PROPS[pid]["thorough"] = PROPS[pid]["thorough"] + list(thorough)
T = dict(TPL=100, WID=4, EXTRA=1, workers=8, flags=CI); T2 = dict(T, EXTRA=2, WID=3, timeout=400); TT = dict(T, timeout=300)
LB = dict(CMAX=2, COSTV=0, ICMIN=2, IC=3, CP=2, DR=1, PARTNO=1, covers=SC); LB2 = dict(LB, ICMIN=4, IC=8, CPMIN=1, CP=3)
for pid, e in (("P01", "h_lbc_csc"), ("P02", "h_lbc_csc03"), ("P03", "h_lbc_csc03_parallel"), ("P04", "h_lbc_csc_tree")):
    also(pid, [job(e, N=12, **LB, **T)], [job(e, N=20, **LB, **TT), job(e, N=16, **LB2, **TT), job(e, N=9, **LB, **T2)])
also("P04", [job("h_lbc_tree", N=14, **LB, **T)], [job("h_lbc_tree", N=24, **LB, **TT), job("h_lbc_tree", N=12, **LB2, **T2)])
also("P05", [job("h_lbc_bcsc", NB=12, W=2, **dict(LB, PARTNO=0), **T)], [job("h_lbc_bcsc", NB=16, W=3, **dict(LB, PARTNO=0), **TT), job("h_lbc_bcsc", NB=8, W=2, **dict(LB2, PARTNO=0), **T2)])
for pid, e in (("P06", "h_hdagg"), ("P07", "h_glc")):
    also(pid, [job(e, N=12, CORES=3, CMAX=0, covers=SC, **T)], [job(e, N=18, CORES=3, CMAX=0, covers=SC, **TT), job(e, N=14, CORES=8, CMAX=0, covers=SC, **TT), job(e, N=8, CORES=2, CMAX=0, covers=SC, **T2)])
also("P08", [job("h_coarsen", N=14, covers=S2, **T), job("h_compute_schedule", N=6, covers=SC, **dict(T, WID=2))], [job("h_coarsen", N=24, covers=S2, **TT), job("h_compute_schedule", N=7, covers=SC, **dict(TT, WID=3, TPL=101, EXTRA=1))])
for e in ("h_level_csc", "h_level_computing", "h_level_hdagg", "h_level_queue"):
    also("P09", [job(e, N=12, covers=LV if e == "h_level_queue" else LV + ("cycle",), **T), job(e, N=10, REV=1, covers=LV if e == "h_level_queue" else LV + ("cycle",), **T)], [job(e, N=24, REV=r, **TT) for r in (0, 1)] + [job(e, N=8, **T2)])
also("P10", [job("h_level_multi", N=12, **T), job("h_level_multi", N=8, KERN=3, **T), job("h_level_tree", N=14, **T), job("h_level_tree_eff", N=14, **T), job("h_level_bcsc", NB=12, W=3, **T), job("h_compute_depth", N=12, **T)],
     [job("h_level_multi", N=20, **TT), job("h_level_tree", N=30, **TT), job("h_level_tree_eff", N=30, **TT), job("h_level_bcsc", NB=18, W=3, **TT), job("h_compute_depth", N=24, **TT)])
also("P11", [job("h_hdagg_cc", N=10, **dict(T, TPL=101))], [job("h_compute_cc", N=12, CMAX=0, covers=("end", "multi-level"), **dict(TT, TPL=101)), job("h_hdagg_cc", N=14, **dict(TT, TPL=101))])
also("P12", [job("h_grouping", N=12, KIND=k, covers=("end", "grouped"), **T) for k in range(4)] + [job("h_grouping", N=10, KIND=k, LFACTOR=1, **T) for k in (0, 3)], [job("h_grouping", N=24, KIND=k, covers=("end", "grouped"), **TT) for k in range(4)])
also("P13", [job("h_pipeline", N=10, KIND=k, PRUNE=k % 2, CORES=2, covers=("end", "grouped"), **T) for k in range(4)], [job("h_pipeline", N=16, KIND=k, PRUNE=pr, CORES=3, covers=("end", "grouped"), **TT) for k in range(4) for pr in (0, 1)])
# size thresholds of the library scaled down (both in the encoded and in the replayed code), so that the code behind them is reached
BIG = dict(scale="250000=3"); GS = dict(scale="0.001=0.4,0.002=0.4,0.0001=0.4"); GS3 = dict(scale="0.001=0.5,0.002=0.5,0.0001=0.5"); NR = dict(omp=2, flags=CI + ["--no-race"])
also("P03", [job("h_lbc_csc03_parallel", N=5, CMAX=1, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=4, **BIG, **NR), job("h_lbc_csc03_parallel", N=10, **LB, **dict(T, **BIG, **NR))],
     [job("h_lbc_csc03_parallel", N=6, CMAX=1, ICMIN=2, IC=2, CP=2, DR=1, PARTNO=1, covers=SC, workers=8, timeout=250, **BIG, **NR), job("h_lbc_csc03_parallel", N=16, **LB, **dict(TT, **BIG, **NR))])
also("P12", [job("h_grouping", N=5, KIND=k, LFACTOR=1, covers=("end", "grouped"), flags=CI, **GS) for k in (0, 1, 3)] + [job("h_grouping", N=10, KIND=k, LFACTOR=1, covers=("end", "grouped"), **T, **GS) for k in (0, 1, 3)],
     [job("h_grouping", N=6, KIND=k, LFACTOR=1, covers=("end", "grouped"), flags=CI, workers=4, timeout=200, **GS3) for k in (0, 1, 3)] + [job("h_grouping", N=20, KIND=k, LFACTOR=1, covers=("end", "grouped"), **TT, **GS3) for k in (0, 1, 3)])
also("P13", [job("h_pipeline", N=5, KIND=k, PRUNE=1, LFACTOR=1, covers=("end", "grouped"), flags=CI, workers=4, **GS) for k in (0, 1, 3)], [job("h_pipeline", N=12, KIND=k, PRUNE=pr, LFACTOR=1, CORES=2, covers=("end", "grouped"), **TT, **GS3) for k in (0, 1, 3) for pr in (0, 1)])
also("P14", [job("h_sparsify", N=12, covers=("end", "pruned"), **T)], [job("h_sparsify", N=20, covers=("end", "pruned"), **TT)])
also("P15", [job("h_postorder", N=14, **T), job("h_postorder_group", N=14, covers=("end", "grouped"), **T)], [job("h_postorder", N=24, **TT), job("h_postorder_group", N=24, covers=("end", "grouped"), **TT)])
also("P17", [job("h_hdagg_etree", N=10, **T)], [job("h_hdagg_etree", N=16, **TT), job("h_aggr_super", N=6, **dict(TT, WID=3))])
also("P20", [job("h_csc_to_csr", M=5, N=6, KIND=k, uf=True, **T) for k in (0, 1)] + [job("h_csr_to_csc", M=6, N=5, KIND=k, uf=True, **T) for k in (0, 1)] + [job("h_transpose", M=6, N=7, uf=True, **T), job("h_copy", M=6, N=6, uf=True, **T)],
     [job("h_csc_to_csr", M=9, N=8, KIND=k, uf=True, **TT) for k in (0, 1)] + [job("h_csr_to_csc", M=8, N=9, KIND=k, uf=True, **TT) for k in (0, 1)] + [job("h_transpose", M=9, N=8, uf=True, **TT)])
also("P21", [job("h_make_half", N=7, NMIN=7, uf=True, **T), job("h_make_full", N=7, NMIN=7, uf=True, **T), job("h_make_symmetric", N=6, NMIN=6, uf=True, **T), job("h_transpose_symmetric", N=4, NMIN=4, uf=True, **T)], [job("h_make_half", N=11, NMIN=11, uf=True, **TT), job("h_make_full", N=11, NMIN=11, uf=True, **TT), job("h_transpose_symmetric", N=5, NMIN=5, uf=True, **TT), job("h_add", M=4, N=4, uf=True, **TT)])
also("P23", [job("h_coarsen_k", N=8, NMIN=8, **T)], [job("h_coarsen_k", N=12, NMIN=12, **TT)])
also("P24", [job("h_supernodes", N=12, NMIN=12, covers=("end", "wide"), **T), job("h_supernode_limit", N=7, NMIN=7, covers=("end", "upper"), **T)], [job("h_supernodes", N=15, NMIN=15, covers=("end", "wide"), **TT), job("h_supernode_limit", N=10, NMIN=10, covers=("end", "upper"), **TT)])
also("P25", [job("h_etree", KIND=0, N=10, NMIN=10, **T), job("h_etree", KIND=1, N=7, NMIN=7, M=7, **T), job("h_col_counts", N=9, NMIN=9, **T), job("h_ereach", N=10, NMIN=10, **T), job("h_L_pattern", N=10, NMIN=10, **T), job("h_symbolic", N=5, NMIN=5, **T)],
     [job("h_etree", KIND=0, N=14, NMIN=14, **TT), job("h_col_counts", N=13, NMIN=13, **TT), job("h_ereach", N=14, NMIN=14, **TT), job("h_L_pattern", N=14, NMIN=14, **TT), job("h_col_counts", N=8, NMIN=8, **T2)])
also("P26", [job("h_metis_symmetric", N=6, NMIN=6, KIND=1, **T), job("h_metis_general", N=5, NMIN=5, KIND=1, **T)], [job("h_metis_symmetric", N=10, NMIN=10, KIND=1, **TT)])
also("P27", [job("h_row_groups", KIND=k, N=12, **T) for k in range(4)], [job("h_row_groups", KIND=k, N=20, **TT) for k in range(4)])
also("P32", [job("h_solve", N=8, KIND=k, uf=True, **T) for k in range(16)], [job("h_solve", N=12, KIND=k, uf=True, **TT) for k in range(16)])
