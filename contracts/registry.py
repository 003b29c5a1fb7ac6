"""property id -> contracts, level, notes"""
import importlib
class Prop:
    def __init__(self, mod, fn, note, level="proof", assumptions=()):
        self.mod, self.fn, self.note, self.level, self.assumptions = mod, fn, note, level, list(assumptions)
    def contracts(self): return getattr(importlib.import_module(self.mod), self.fn)()
PROPS = {
 "P01": Prop("c_sets", "contracts_P01", "set algebra, searching and merging on sorted arrays",
             assumptions=["arrays handed to the set operations are sorted (strictly for the set operations; precondition)", "array lengths at most 2^30 (precondition)"]),
 "P02": Prop("c_sets", "contracts_P02", "reordering of arrays by permutations",
             assumptions=["the index array handed in is a permutation (precondition)", "array lengths at most 2^30 (precondition)"]),
 "P03": Prop("c_elast", "contracts_P03", "rigid-body transformations of the elasticity and scalar energies against their dense-matrix definition, for all real inputs",
             assumptions=["elasticity matrices handed to the two-sided products are symmetric (precondition)", "rotation scalings are positive (precondition)"]),
 "P05": Prop("c_dense", "contracts_P05", "dense block algebra"),
 "P07": Prop("c_opt", "contracts_P07", "level-specific options", assumptions=["levels are not negative", "at most 2^20 special values (precondition)"]),
 "P08": Prop("c_spla", "contracts_P08", "sparse matrix utilities", level="bounded", assumptions=["rows of the inputs are sorted"]),
 "P09": Prop("c_gs", "contracts_P09", "Gauss-Seidel sweeps", assumptions=["rows of the matrix are consecutive, columns are valid, ranges lie inside the matrix (preconditions)"]),
 "P17": Prop("c_opt", "contracts_P17", "ordering of tuples"),
 "P20": Prop("c_soc", "contracts_P20", "strength of connection", level="bounded", assumptions=["edge matrices, diagonals and weights are symmetric positive semi-definite, rotation scalings are positive"]),
 "P15": Prop("c_mg", "contracts_P15", "multigrid cycles", level="bounded", assumptions=["the level matrices are regular, the finest one is symmetric positive definite (Gauss-Seidel and Jacobi divide by diagonal blocks)"]),
 "P18": Prop("c_mg", "contracts_P18", "level transfers", level="bounded", assumptions=["serial vectors (one process)"]),
 "P10": Prop("c_blk", "contracts_P10", "block smoothers", level="bounded", assumptions=["matrices are symmetric, the blocks that a smoother inverts are regular or a pseudo-inverse is asked for"]),
 "P16": Prop("c_par", "contracts_P16", "equivalence classes and table exchange", level="bounded", assumptions=["at most 5 ranks; message passing of fakempi.h (messages do not overtake each other, eager or rendezvous)"]),
"P12": Prop("c_mesh", "contracts_P12", "distributed meshes and agglomerate coarsening", level="bounded", assumptions=["at most 4 ranks; message passing of fakempi.h", "agglomerates are formed by a rank that shares all their vertices, the ranks of the center share all members (precondition of the coarse map)"]),
 "P19": Prop("c_prol", "contracts_P19", "prolongations and coarse energies", level="bounded", assumptions=["at most 4 ranks, rank 0 idle if there are several (parallel unknowns need that); message passing of fakempi.h", "edge matrices and vertex weights are positive semi-definite, rotation scalings are positive, vertices have different positions"]),
"P11": Prop("c_pla", "contracts_P11", "parallel linear algebra", level="bounded", assumptions=["at most 5 ranks, rank 0 idle if there are several (parallel unknowns need that); message passing of fakempi.h", "communication in a thread of its own is not covered", "matrices handed to the smoothers are symmetric positive definite"]),
"P13": Prop("c_ctr", "contracts_P13", "redistribution to fewer ranks", level="bounded", assumptions=["at most 5 ranks; message passing of fakempi.h", "the partition into groups is an argument (METIS is not covered)"]),
 "P06": Prop("c_buf", "contracts_P06", "pack / unpack of values in communication buffers"),
 "P04": Prop("c_elast", "contracts_P04", "edge energy blocks: symmetric, vanish on rigid-body motions/constants, exact value; weights stored and read back",
             assumptions=["edge matrices are symmetric (precondition)", "rotation scalings are positive (precondition)"]),
}
