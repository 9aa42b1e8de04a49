#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the statements stay reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


D = "tt_sketch/"
SM = D + "sketching_methods/"
FMT = [SM + "dense_sketch.py", SM + "sparse_sketch.py", SM + "tensor_train_sketch.py",
       SM + "cp_sketch.py", SM + "tucker_sketch.py"]
DRMS = [D + "drm/dense_gaussian_drm.py", D + "drm/sparse_gaussian_drm.py",
        D + "drm/sparse_sign_drm.py", D + "drm/tensor_train_drm.py", D + "drm_base.py"]

prop("C01", "A sketch depends on the tensor, not on the format it is stored in",
     "Sketching the same tensor with the same pair of dimension reduction maps gives the same sketch (every core and every interface matrix, mode by mode) whether the tensor is stored dense, sparse, as a tensor train, in CP or in Tucker form, for every format the map supports. This holds for every tensor order, for arbitrary (pairwise different, including 1) mode sizes and ranks, for left and right maps, and for streaming, orthogonal and HMT sketches alike.",
     ["inputs", "configurations"],
     "all tensors of order >= 2, all shapes/ranks/seeds, all (format, DRM) pairs the library supports, all three sketch methods",
     "Tests sketch low-rank tensors and compare reconstructions, which are exact for any full-rank DRM: a sketch that contracts the wrong modes of the DRM still reconstructs, and cubes hide permuted modes.",
     FMT + DRMS + [D + "sketch_dispatch.py"],
     [("omega/psi contraction per format", "sketching_methods/*"), ("DRM partial contractions", "drm/*.sketch_*"), ("mode reversal for right maps", "drm_base.handle_transpose")],
     ["stream_sketch(...).Psi_cores / .Omega_mats", "orthogonal_sketch(...).cores", "hmt_sketch(...).cores"])

prop("C02", "Streaming sketches are linear in the tensor",
     "The streaming sketch of a sum of tensors (in any mixture of formats) is the sum of the sketches of the summands under the same maps; updating an existing sketch with another tensor, scaling it, negating it, subtracting and dividing it by a number gives the sketch of the correspondingly combined tensor. Sketching an explicit sum consumes every summand exactly once, in streaming, orthogonal and HMT sketches, and the maps used by an updated sketch are unchanged.",
     ["inputs", "histories"],
     "all sums of >= 1 summands of arbitrary formats, all scalars, all interleavings of updates",
     "The one arithmetic test of sketches fails on the pinned tree, and sums are only tested through reconstruction error of exactly representable tensors.",
     [D + "sketch_dispatch.py", D + "sketch_container.py", D + "sketch.py", D + "tensor.py"],
     [("sum dispatch", "sketch_dispatch.sum_sketch / sketch_omega_sum / sketch_psi_sum"), ("container arithmetic", "sketch_container.SketchContainer"), ("update", "sketch.SketchedTensorTrain.__add__ / __mul__")],
     ["(sketch + X).Psi_cores", "stream_sketch(TensorSum([...]))"])

prop("C03", "Transposition reverses every object consistently",
     "Transposing a tensor (any format, including sums and sketches) reverses its modes: shape, ranks and all entries are those of the tensor with reversed mode order, and transposing twice restores the original. Sketching a transposed tensor with the transposed, exchanged maps equals transposing the sketch, transposed maps report the reversed shape and the matching ranks, and a transposed sketch can still be updated with transposed tensors.",
     ["inputs", "configurations"],
     "all formats, shapes (non-cubical), rank tuples (non-palindromic), all DRMs",
     "Tests transpose only a few fixed objects with a single rank value and never continue to use a transposed sketch or DRM.",
     [D + "tensor.py", D + "drm_base.py", D + "sketch.py", D + "sketch_container.py"],
     [("T properties", "tensor.*.T, sketch_container.SketchContainer.T, sketch.SketchedTensorTrain.T"), ("DRM transposition", "drm_base.DRM.T"), ("right sketches by reversal", "drm_base.handle_transpose")],
     ["X.T.to_numpy()", "X.T.shape/.rank", "stream_sketch(X).T"])

prop("C04", "A streaming sketch reconstructs by the documented two-sided formula",
     "The tensor train obtained from a streaming sketch multiplies each core by the pseudo-inverse of exactly the interface matrix adjoining it: on the right of all but the last core when the right ranks are the larger ones, on the left of all but the first core when the left ranks are larger, and either way when the direction is requested explicitly. The resulting train has the smaller of the two rank tuples as its rank and the tensor's shape.",
     ["inputs", "configurations"],
     "all sketches, all rank tuples, both directions",
     "Tests look at approximation errors for one rank setting; which core meets which pseudo-inverse, in which orientation, is not observed for non-uniform ranks.",
     [D + "sketch.py", D + "utils.py"],
     [("assembly", "sketch.assemble_sketched_tt"), ("pseudo-inverse products", "utils.left_mul_pinv / right_mul_pinv")],
     ["SketchedTensorTrain.to_tt()", "SketchedTensorTrain.C_cores(direction)"])

prop("C05", "Orthogonal and HMT sketches return left-orthogonal trains of the asked rank",
     "The result of an orthogonal or HMT sketch is a tensor train of the input's shape in which every core but the last is left-orthogonal, and whose rank is the requested (left) rank. Its last core is the exact contraction of the input with the preceding cores, i.e. the result is the orthogonal projection of the tensor onto the span of the computed cores.",
     ["inputs", "configurations"],
     "all formats, shapes, rank tuples and seeds, orthogonal and HMT",
     "Tests compare with exact low-rank inputs, for which any basis of the right size gives zero error; orthogonality of all cores and the projection identity are not asserted for general inputs.",
     [D + "sketch.py", D + "sketch_dispatch.py"],
     [("orthogonalisation step", "sketch_dispatch.orth_step"), ("projected partial contractions", "sketch_dispatch.OrthogTTDRM / general_sketch")],
     ["orthogonal_sketch(...).cores", "hmt_sketch(...).cores/.rank"])

prop("C06", "Blocked sketching equals unblocked sketching, block by block",
     "Restricting a dimension reduction map to a range of rank indices gives exactly those rows of the full map's sketch, for every sliceable map and every supported format, left or right. Hence a blocked sketch over any partition of the left and right ranks equals the ordinary sketch with the unsliced maps.",
     ["inputs", "configurations"],
     "all partitions of the ranks (per-mode different cut points), all sliceable DRMs, all formats they support, left and right",
     "Tests use one partition, seeded left/right DRMs and only the sparse and TT formats.",
     DRMS + [D + "sketch.py"],
     [("slice", "drm_base.CanSlice.slice"), ("rank windows", "rank_min/rank_max in drm/*"), ("block assembly", "sketch._assemble_blocked_stream_sketches")],
     ["drm.slice(a, b).sketch_*(X)", "blocked_stream_sketch(...)"])

prop("C07", "Increasing the rank of a sketch extends it",
     "Increasing the ranks of a sketch keeps all previously computed entries as the leading block and fills the rest so that the result equals a fresh sketch of the tensor with the enlarged maps; the enlarged map restricted to the old ranks is the old map. Maps that cannot be enlarged are refused with a ValueError, without touching the sketch.",
     ["inputs", "configurations"],
     "all increasing pairs of rank tuples (also increasing only one side or some modes), all maps that support rank increase",
     "Tests increase uniform ranks once for two DRMs and compare reconstruction errors.",
     DRMS + [D + "sketch.py"],
     [("increase_rank", "drm_base.CanIncreaseRank.increase_rank, sketch.SketchedTensorTrain.increase_rank"), ("block assembly", "sketch._assemble_blocked_stream_sketches")],
     ["SketchedTensorTrain.increase_rank(...).Psi_cores/.Omega_mats"])

prop("C08", "A fixed seed reproduces the result in any process, on any machine",
     "With an explicit seed, every random constructor, every dimension reduction map and every sketch is a function of its arguments only: it does not depend on earlier random draws, on the state of the global generator, on the hash randomisation of the interpreter, on the number of processors, on the time or on object identities. Two maps built with the same arguments act identically.",
     ["histories", "configurations", "schedules"],
     "all seeds, all interleavings with other users of random numbers, all processes and machines",
     "Tests run in one process on one machine; PYTHONHASHSEED and CPU count never vary within a run.",
     [D + "drm_base.py", D + "sketch.py", D + "utils.py", D + "tensor.py"] + DRMS[:4],
     [("seed plumbing", "drm_base.DRM.__init__, sketch.*_sketch right_seed"), ("parallel generator", "utils.MultithreadedRNG"), ("random constructors", "tensor.*.random")],
     ["same seed => same arrays"])

prop("C09", "Seeded library calls leave the global random state alone",
     "Constructing seeded tensors or dimension reduction maps and sketching with them never reseeds or draws from numpy's global random generator. Unseeded calls draw fresh randomness, so two unseeded calls do not repeat one another.",
     ["histories"],
     "all interleavings of library calls with the caller's own use of the global generator",
     "No test looks at the global generator after a library call.",
     [D + "drm/dense_gaussian_drm.py", D + "tensor.py", D + "drm_base.py", D + "sketch.py", D + "utils.py"],
     [("seed handling", "DRM.__init__, *.random, *_sketch")],
     ["np.random.get_state() before/after", "two unseeded calls"])

prop("C10", "Independent random objects use distinct random streams",
     "The left and the right map of one sketch, the cores of one random tensor or map, the factors and the core of a random Tucker tensor, and the blocks filled in parallel are all generated from pairwise different random streams. Different seeds lead to different streams.",
     ["inputs", "configurations"],
     "all seeds, orders and shapes (also when all modes and ranks are equal, so that a repeated stream would produce equal arrays)",
     "Tests check errors only; a map with two identical cores still sketches, just with wrong statistics.",
     [D + "sketch.py", D + "tensor.py", D + "utils.py"] + DRMS[:4],
     [("derived seeds", "SeedSequence.generate_state/spawn uses, right_seed, mu + seed")],
     ["stream keys of each generated array"])

prop("C11", "Tensor arithmetic agrees with dense arithmetic in every format",
     "Converting to a dense array commutes with addition, subtraction, negation, multiplication and division by scalars (from either side), in-place addition to sums, direct tensor-train addition, per-summand scaling of sums and conversion between formats, for every format and every mixture of formats. Converting any format to dense gives the documented contraction of its parameters.",
     ["inputs"],
     "all formats and mixtures, all orders >= 1 where the format allows, all shapes and ranks including 1, all scalars",
     "Tests use a few shapes, mostly order 3 to 5, and a few operator combinations.",
     [D + "tensor.py", D + "tt_gmres.py"],
     [("operators", "tensor.Tensor.__add__/__mul__/... and overrides"), ("dense conversion", "to_numpy of every format")],
     ["(X op Y).to_numpy()"])

prop("C12", "Dot, norm and error equal their dense definitions",
     "The dot product of any two tensors of equal shape in any formats is the sum of products of their entries (hence symmetric and bilinear), norms are the root of the self dot product, and the reported error is the norm of the difference, divided by the norm of the reference when relative and by the root of the number of entries when an RMSE is asked. The relative error against a zero reference is infinite, and the fast variant computes the same quantity in exact arithmetic.",
     ["inputs"],
     "all pairs of formats including sums and sketches, all option combinations, zero references",
     "Tests check a handful of pairs and options on fixed shapes.",
     [D + "tensor.py"],
     [("dot/norm/error", "tensor.Tensor, overrides in TensorTrain, SparseTensor, TensorSum, SketchedTensorTrain")],
     ["X.dot(Y)", "X.norm()", "X.error(Y, ...)"])

prop("C13", "Operations do not modify their operands",
     "Apart from the explicitly in-place operations (item assignment and in-place addition to a sum), no operation of the library modifies the arrays, lists, shapes or maps of its operands: arithmetic, transposition, rounding, dot products, sketching, updating a sketch, rank increase, linear maps, preconditioners and the solver leave every argument as it was.",
     ["histories", "inputs"],
     "all public operations on all formats, any number of later uses of the operands",
     "Tests use each operand once, so a silently modified operand is not noticed.",
     [D + "tensor.py", D + "tt_gmres.py", D + "sketch.py", D + "sketch_container.py", D + "utils.py"],
     [("copying discipline", "all methods that build new cores/lists")],
     ["operand arrays and lists after the call"])

prop("C14", "Reported shape, rank and size describe the stored data",
     "For every object the library returns, the reported shape, ranks, number of dimensions, number of nonzeros, number of summands and storage size agree with the arrays it stores: consecutive cores have matching ranks, boundary ranks are one, and the storage size is the number of stored parameters (for a sparse tensor its entries and their indices). This also holds for results of arithmetic, transposition, sketching, rounding, slicing and rank increase.",
     ["inputs"],
     "all formats, all operations returning them, all shapes and ranks including 1",
     "Tests look at shapes of few results, and never at sizes of CP tensors or of sums containing them.",
     [D + "tensor.py", D + "sketch.py", D + "sketch_container.py", D + "tt_gmres.py", D + "drm_base.py"],
     [("derived attributes", "constructors and size/rank/shape properties")],
     ["X.shape, X.rank, X.size, X.ndim, X.nnz, sketch.left_rank, ..."])

prop("C15", "Indexed access agrees with the dense tensor",
     "Gathering entries at arbitrary index lists from sparse, tensor-train or CP tensors gives the entries of the dense tensor at these positions (zero where a sparse tensor stores nothing), in the order asked and with repetitions allowed. Converting a dense tensor to sparse form and splitting a sparse tensor into a sum of blocks preserve every entry exactly once.",
     ["inputs"],
     "all index lists (any order, repeats, one entry), all shapes including size-1 modes, all numbers of blocks also when they do not divide the number of entries",
     "Tests gather each position once from one or two shapes.",
     [D + "tensor.py"],
     [("gather", "tensor.SparseTensor.gather, TensorTrain.gather, CPTensor.gather"), ("conversion", "DenseTensor.to_sparse, SparseTensor.split")],
     ["X.gather(idx)", "X.to_sparse()", "X.split(n)"])

prop("C16", "Tensor-train canonical forms and rounding",
     "Orthogonalisation represents the same tensor and makes all cores but the last left-orthogonal. Rounding without truncation represents the same tensor; with truncation it returns right-orthogonal cores that project each unfolding on its leading singular vectors, never exceeds the requested ranks or the original ones, keeps every rank at least one, and a given relative threshold discards exactly the singular values not larger than it times the largest one. Reported singular values are those of the corresponding unfoldings.",
     ["inputs"],
     "all shapes, ranks (also ranks larger than admissible), thresholds, integer and tuple rank bounds",
     "Tests round random trains of one shape and check the error against a bound.",
     [D + "tensor.py"],
     [("QR sweep", "tensor.TensorTrain.orthogonalize"), ("SVD sweep", "tensor.TensorTrain.round / svdvals")],
     ["tt.orthogonalize()", "tt.round(eps, max_rank)", "tt.svdvals()"])

prop("C17", "TT-SVD decomposes any tensor, with bounded ranks",
     "Without a rank bound TT-SVD reproduces the tensor; with a bound it returns a train of the tensor's shape whose ranks do not exceed the bound, whose cores but the last are left-orthogonal and which equals the tensor projected mode by mode on leading left singular vectors. It accepts every tensor format, order at least two and every way to give ranks.",
     ["inputs"],
     "all orders >= 2, shapes, formats, rank bounds",
     "Tests decompose one shape.",
     [D + "tt_svd.py"],
     [("sweep", "tt_svd.tt_svd")],
     ["tt_svd(X, rank)"])

prop("C18", "Rank requests are validated and trimmed to the exact maximum",
     "A rank may be given as one number or as one number per interior edge; a sequence of the wrong length is rejected with a ValueError. Trimming returns ranks that are at least one, never above the request, and mutually consistent (no rank exceeds its neighbour's rank times the mode between them, from either side, nor the product of the modes on either side); already consistent ranks are returned unchanged, whatever the number of modes.",
     ["inputs"],
     "all shapes of any order and all rank requests (int, list, tuple, numpy integers)",
     "Tests trim a few short shapes; long trains, where the iteration cap binds, do not occur.",
     [D + "utils.py"],
     [("trimming", "utils.trim_ranks"), ("processing", "utils.process_tt_rank")],
     ["process_tt_rank(rank, shape, trim)"])

prop("C19", "Every supported map/format pair works, every other pair is refused",
     "A map can sketch exactly the formats it declares support for; the declared capabilities, the methods that exist and the formats the sketching routines handle agree with one another, also for sums of such formats. Sketching an unsupported format, slicing or enlarging a map that does not support it is refused with a ValueError before any result is produced.",
     ["configurations", "programs"],
     "all pairs of map type and tensor format, nested sums included",
     "Tests enumerate the supported pairs they know of; unsupported pairs are never tried.",
     [D + "sketch_dispatch.py", SM + "abstract_methods.py", D + "sketch.py"] + DRMS,
     [("dispatch tables", "sketch_dispatch.*_DISPATCH/_METHODS"), ("capability mixins", "sketching_methods.abstract_methods, drm_base"), ("guards", "sketch.blocked_stream_sketch / increase_rank / get_drm_capabilities")],
     ["stream_sketch(X, drm types)", "get_drm_capabilities()"])

prop("C20", "Inconsistent requests are rejected instead of silently computed",
     "Sketching with a map whose shape differs from the tensor's, with ranks that differ from the given map's ranks, with left ranks neither all larger nor all smaller than the right ones, or with an unknown reconstruction direction raises a ValueError; so do linear-map sums with mismatched or no members, solvers whose operator, right-hand side or initial guess do not fit, unknown norm goals, unknown rounding methods and orthogonal random trains without trimming. Consistent requests are accepted however ranks are written (integer, list or tuple).",
     ["inputs", "configurations"],
     "all mismatching arguments of the public entry points",
     "Tests exercise two or three of the guards.",
     [D + "sketch.py", D + "drm_base.py", D + "tt_gmres.py", D + "tensor.py", D + "utils.py"],
     [("guards", "raise statements of the public entry points")],
     ["ValueError raised by the public entry points"])

prop("C21", "Matrix-product operators act as the matrices they represent",
     "Applying an operator in matrix-product form to a tensor train equals contracting its dense form with the dense tensor over the input modes, its transpose is the transposed operator, the identity operator returns its argument, scaling scales the map, and conversion to a tensor train or dense array keeps all entries. A sum of linear maps applied to a train or to a sum of trains yields the sum over all pairs.",
     ["inputs"],
     "all input and output shapes (rectangular), ranks, orders",
     "Tests use square operators and check a few entries.",
     [D + "tt_gmres.py"],
     [("operator algebra", "tt_gmres.MPO"), ("sums", "tt_gmres.TTLinearMapSum")],
     ["mpo(x).to_numpy()", "TTLinearMapSum(...)(x)"])

prop("C22", "Preconditioning and its forward map are mutually inverse",
     "Applying the preconditioner multiplies exactly the chosen mode by the inverse of the given matrix and leaves every other mode alone; the forward map multiplies the same mode by the matrix itself, so that each undoes the other, for every choice of mode.",
     ["inputs"],
     "all invertible matrices, modes, shapes and ranks",
     "Tests use the first mode of one shape.",
     [D + "tt_gmres.py", D + "utils.py"],
     [("triangular solve", "tt_gmres.TTPrecond.backward_call / forward_call")],
     ["TTPrecond(A, shape, mode)(x)"])

prop("C23", "TT-GMRES follows the Arnoldi recurrence and its own stopping rule",
     "With exact rounding, the solver builds normalised basis vectors by (preconditioned) operator application and orthogonalisation against the previous basis vectors (all, or the last three in symmetric mode), truncating both to the relative accuracy tolerance * (norm of the initial preconditioned residual) / (norm of the current projected residual), minimises the projected residual, and returns the initial guess plus the optimal combination of the basis vectors. The residual it records is the norm of the projected residual relative to the right-hand side, it stops as soon as exactly that quantity drops below the tolerance or the iteration limit is reached, and every option (preconditioner, rounding methods, zero iterations) runs.",
     ["inputs", "configurations", "histories"],
     "all operators, right-hand sides, tolerances, iteration limits and option combinations",
     "Tests check that one small system converges; a stopping test on a squared residual or a dropped basis vector only makes it stop earlier or converge slower.",
     [D + "tt_gmres.py"],
     [("Arnoldi loop", "tt_gmres.tt_sum_gmres"), ("least squares", "np.linalg.lstsq use in tt_sum_gmres")],
     ["tt_sum_gmres(...) result and history"])

prop("C24", "Rounding a sum of trains uses every summand and respects the rank bound",
     "Every rounding method applied to a sum of trains accounts for every summand exactly once: without truncation the exact and pairwise methods represent the full sum, and the sketching methods sketch the full sum. The result is a train of the sum's shape whose ranks do not exceed the (admissible) bound, for one or more summands and every way to give the bound.",
     ["inputs", "configurations"],
     "all numbers of summands >= 1, all methods, ranks and thresholds",
     "Tests round two or three summands of low rank.",
     [D + "tt_gmres.py"],
     [("rounding", "tt_gmres.round_tt_sum")],
     ["round_tt_sum(...)"])

prop("C25", "Lazily hashed map entries are a pure, collision-free function of position",
     "Each entry of a lazily evaluated map depends only on the index tuple (over the sketched modes), the row number and the seed: not on the other nonzeros in the tensor, their order or number, on the rank window or the total rank. Different index tuples lead to different hash inputs for every shape whose number of entries fits 64 bits, so indices of large tensors do not collide; nor do entries of different rows or under consecutive seeds (the modes of a map use those), which would make rows or modes shifted copies of each other.",
     ["inputs", "configurations"],
     "all sparse tensors of any shape up to 2^64 entries, all windows",
     "Tests use tensors with a few thousand entries; wrap-around needs more than 2^31.",
     [D + "drm/fast_lazy_gaussian.pyx", D + "drm/sparse_gaussian_drm.py", D + "drm/sparse_sign_drm.py"],
     [("flat index and hashing", "fast_lazy_gaussian._inds_to_rand_double / hash_int_c"), ("random signs", "fast_lazy_gaussian._inds_to_sparse_sign")],
     ["inds_to_normal(...)", "inds_to_sparse_sign(...)"])

prop("C26", "The compiled kernels never access memory out of bounds",
     "The kernels that fill lazily hashed maps run without bounds checking; for every argument the maps pass them, every array access stays inside the array and every integer that sizes or indexes memory is wide enough for the sizes the callers pass. Requests that would violate this, such as more nonzeros per row than rows, are rejected before.",
     ["inputs"],
     "all index arrays, windows, ranks and nonzero counts reachable through the maps",
     "An out-of-bounds write of a few shorts rarely crashes a test.",
     [D + "drm/fast_lazy_gaussian.pyx", D + "drm/sparse_sign_drm.py"],
     [("unchecked loops", "fast_lazy_gaussian.pyx"), ("argument checks", "sparse_sign_drm.SparseSignDRM.__init__")],
     ["array accesses in the kernels"])

prop("C27", "Parallel random fills are complete and their failures surface",
     "Every element of an array filled in parallel with random numbers is written exactly once by exactly one worker, with its own stream, for every size (also sizes smaller than or not divisible by the number of workers, and zero), all workers are finished before the array is returned, and an exception in a worker is raised to the caller instead of leaving uninitialised memory.",
     ["schedules", "inputs", "fault_sequences"],
     "all array sizes and worker counts, all schedules, a failure in any worker",
     "Uninitialised memory often looks random; tests never inject a worker failure or vary the worker count.",
     [D + "utils.py"],
     [("chunked fill", "utils.MultithreadedRNG.fill")],
     ["random_normal(shape, seed)"])

prop("C28", "Matricisation helpers are exact and mutually inverse",
     "Matricising a tensor along any mode or list of modes puts the listed modes first, in the given order, and the others, in natural order, into the columns; dematricising with the same mode and shape restores the tensor. Products with pseudo-inverses equal the products with the Moore-Penrose inverse on the stated side, and projectors are built from the given pair of bases.",
     ["inputs"],
     "all orders, shapes, modes and lists of modes",
     "Tests check one or two fixed shapes.",
     [D + "utils.py"],
     [("matricize/dematricize", "utils"), ("pseudo-inverse products", "utils.left_mul_pinv / right_mul_pinv / projector")],
     ["matricize(A, mode)", "dematricize(M, mode, shape)"])

prop("C29", "Random and special constructors produce what they document",
     "Random trains, CP, Tucker, sparse and dense tensors and operators have the requested shape and (trimmed or clipped where documented) rank, entries scaled as documented for each normalisation goal, orthogonal cores or factors where documented, and sparse ones the requested number of distinct positions; zero and identity constructors represent zero and the identity.",
     ["inputs", "configurations"],
     "all shapes, ranks, options",
     "Tests check shapes for fixed sizes.",
     [D + "tensor.py", D + "tt_gmres.py", D + "utils.py"],
     [("constructors", "*.random, *.zero, MPO.eye")],
     ["X.shape/.rank/cores of constructed objects"])

prop("C30", "Test-function tensors have the requested shape and entries",
     "The Hilbert tensor has entry 1/(i1+...+id+1) at position (i1,...,id); the square-root tensor has the requested shape, unit norm and entries proportional to the root of the absolute sum of the grid coordinates of that position; the power-decay tensor has the requested shape and can be built for every shape, positive power and seed.",
     ["inputs"],
     "all orders and non-cubical shapes",
     "Only cubes are built anywhere.",
     [D + "utils.py"],
     [("generators", "utils.hilbert_tensor / sqrt_tensor / power_decay_tensor")],
     ["hilbert_tensor(d, n)", "sqrt_tensor(shape)", "power_decay_tensor(shape)"])

prop("C31", "Experiment records survive interruption and are never duplicated",
     "In the experiment driver every finished experiment is appended to the table and written to disk before the next one starts, a configuration already in the table is not run again, and reloading and saving a table does not add columns or rows; an interruption at any point of a save, after part of the file was written, loses no experiment recorded before.",
     ["histories", "crash_points"],
     "all sequences of experiments and restarts",
     "The scripts have no tests.",
     ["scripts/experiment_base.py"],
     [("record and save", "experiment_base.Experiment.do_experiment / save / load")],
     ["the CSV file after each experiment"])

prop("C32", "No execution path uses a name or attribute that does not exist",
     "On every path of every library function, every name that is read has been assigned or imported and every attribute or keyword used on the library's own objects exists, so that no combination of options ends in a NameError, UnboundLocalError or AttributeError.",
     ["programs", "configurations"],
     "all paths of all functions of the package",
     "Option combinations such as returning the maps of an HMT sketch are not tested.",
     [D + "sketch.py", D + "sketch_container.py", D + "utils.py", D + "tensor.py", D + "tt_gmres.py"],
     [("definite assignment", "all functions")],
     ["absence of NameError/UnboundLocalError/AttributeError"])

prop("C33", "What was computed before does not change a result",
     "The result of an operation depends on its arguments alone: it is the same whether or not other operations were applied before to the same objects, to objects they were derived from or derived from them, or with other arguments, and whether or not earlier results were overwritten by the caller; in particular nothing computed earlier is handed out again for an object whose content has changed.",
     ["histories", "inputs"],
     "all orders of operations on tensors, maps, sketches and linear maps; all repeated calls of the entry points",
     "Tests call each operation on fresh objects; a stale or shared cached value shows only in particular sequences of calls.",
     [D + "tensor.py", D + "sketch.py", D + "sketch_container.py", D + "tt_gmres.py", D + "utils.py"] + DRMS,
     [("every public operation", "tensor.*, sketch_container.SketchContainer, sketch.*, drm.*, tt_gmres.*")],
     ["values of results after earlier calls", "values of results after earlier results were modified by the caller"])

prop("C34", "Structured tensors are processed without forming the full array",
     "Tensors of dozens of modes can be used in structured form: arithmetic, transposes, sizes and in-place additions in all structured formats, sketching them (stream, orthogonal, HMT, blocked, updated and enlarged sketches, and reconstructing trains from them) with tensor train maps or, for sparse tensors, with lazily hashed maps, inner products, norms and fast errors among trains, sparse tensors and their sums, gathering entries, orthogonalising and rounding trains and sums of trains, applying operators and preconditioners, solving with TT-GMRES, and generating random trains, CP and Tucker tensors never form an array whose number of entries contains the product of the sizes of two modes.",
     ["inputs", "configurations"],
     "all shapes, ranks, numbers of nonzeros, formats and maps (orders 2 to 5)",
     "Tests use tensors small enough to be dense, so an operation that falls back to the full array gives the right answer and only fails for large orders.",
     [D + "tensor.py", D + "sketch.py", D + "tt_gmres.py", D + "drm/tensor_train_drm.py", D + "sketching_methods/tensor_train_sketch.py", D + "sketching_methods/sparse_sketch.py", D + "sketching_methods/cp_sketch.py", D + "sketching_methods/tucker_sketch.py"],
     [("sweeps over cores", "TensorTrain.dot / TensorTrainDRM.sketch_* / sketch_*_psi_omega"), ("dispatch of inner products", "Tensor.dot / SparseTensor.dot / TensorSum.dot")],
     ["memory of stream_sketch(X, ...), X.dot(Y), X.norm(), round_tt_sum(...)"])

prop("C40", "Reconstruction error is quasi-optimal",
     "The expected error of streaming, orthogonal and HMT sketches is within the theoretical factor of the best approximation of that rank.",
     ["inputs"], "all tensors, ranks, distributions of the maps",
     "Tests sample a few tensors and compare against loose bounds.",
     [D + "sketch.py"], [("sketching", "sketch.*_sketch")], ["X_sketched.error(X)"])
prop("C41", "Map entries have the documented distribution",
     "Entries of Gaussian maps are independent standard normal, sparse sign maps have uniformly placed independent random signs.",
     ["inputs"], "all positions and seeds",
     "Tests sample moments.",
     [D + "drm/fast_lazy_gaussian.pyx", D + "utils.py"], [("hash to normal", "fast_lazy_gaussian.uint_to_normal")], ["map entries"])
prop("C42", "Results are numerically stable",
     "Rounding errors of sketching, rounding and the solver stay proportional to machine precision times the condition of the problem.",
     ["inputs"], "all well-conditioned inputs",
     "Tests use benign inputs.",
     [D + "sketch.py", D + "tensor.py"], [("lstsq/QR based formulas", "utils.right_mul_pinv")], ["floating point results"])
prop("C43", "TT-GMRES converges for well-conditioned systems",
     "For well-conditioned operators and sufficient rank the solver reaches the tolerance within the iteration limit.",
     ["inputs"], "all such systems",
     "Tests solve one system.",
     [D + "tt_gmres.py"], [("solver", "tt_gmres.tt_sum_gmres")], ["history['residual_norm']"])
prop("C44", "Cost of sketching is linear in nnz, modes and cores",
     "The run time of sketching grows as documented (memory is the subject of C34).",
     ["inputs"], "all sizes",
     "Tests use tiny sizes.",
     [D + "sketch_dispatch.py"], [("contraction order", "drm/*, sketching_methods/*")], ["time and memory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
